#!/usr/bin/env python3
"""check.py ID: decides one property against /repo's working tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core

def main():
    pid = sys.argv[1]
    import props
    chk = None
    try:
        chk = core.Check(pid)
        try:
            props.PROPS[pid](chk)
        except core.Decided:
            pass
        rc = chk.finish()
    except core.MissingName as e:
        if pid == 'C12':
            chk.violation('a dictionary module of the crate lacks what its dictionary declares: ' + '; '.join(e.names)[:300], {'missing': e.names})
            rc = chk.finish()
        else:
            print('ERROR: %s' % e); rc = 2
    except Exception as e:
        if isinstance(e, core.ToolError): print('ERROR: %s' % e)
        else: traceback.print_exc()
        rc = chk.finish() if chk and chk.violations else 2      # a violation found before stands
    sys.exit(rc)

if __name__ == '__main__':
    main()
