//! fresh N THREADS OUT: constructs packets and hides tunnel passwords, recording authenticators, identifiers and salts.
use harness::util::*;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::rfc2868;
use radius::core::tag::Tag;
use serde_json::{json, Value};
use std::io::Write;

const CODES: [Code; 6] =
    [Code::AccessRequest, Code::AccountingRequest, Code::StatusServer, Code::CoARequest, Code::AccessAccept, Code::DisconnectRequest];

/// A number that has nothing to do with the library's own.
fn mix(thread: usize, i: usize, n: u64) -> u64 {
    let mut z = (thread as u64 * 1_000_003 + i as u64).wrapping_mul(8).wrapping_add(n).wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn one(thread: usize, i: usize, out: &mut Vec<Value>) {
    let code = CODES[mix(thread, i, 0) as usize % CODES.len()];
    let given: i32 = if i % 4 == 3 { (i / 4 % 256) as i32 } else { -1 };
    let secret = [&b"secret"[..], b"", b"s", &[0; 16], &[b'k'; 200], b"secret"][mix(thread, i, 1) as usize % 6];
    let mut p = if given >= 0 {
        Packet::new_with_identifier(code, secret, given as u8)
    } else {
        Packet::new(code, secret)
    };
    let (id, auth) = (p.get_identifier(), hex(p.get_authenticator()));
    p.add(AVP::from_bytes(1, &[i as u8]));
    let want2 = if i % 7 == 0 { id } else { mix(thread, i, 2) as u8 };
    p.set_identifier(want2);
    let same2 = p.get_code() == code
        && p.get_secret() == secret
        && (0..=255u8).all(|t| {
            let vs: Vec<Vec<u8>> = p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect();
            vs == if t == 1 { vec![vec![i as u8]] } else { vec![] }
        });
    out.push(json!({"k": "new", "sec": hex(secret), "code": format!("{code:?}"), "auth": auth, "id": id, "given": given, "auth2": hex(p.get_authenticator()), "id2": p.get_identifier(),
                    "want2": want2, "same2": same2}));
    // salts: by the function itself for one request, through the dictionary, several in one packet
    let pws: [&[u8]; 3] = [b"", b"password", &[b'x'; 100]];
    let (w, pw) = (i / 4 % 3, pws[i / 4 % 3]);
    let mut salt = |grp: String, raw: Vec<u8>| out.push(json!({"k": "salt", "grp": grp, "salt": hex(&raw[1..3])}));
    let tag = Tag::new(3);
    match i % 4 {
        0 => salt(format!("fn-{w}"), AVP::from_tunnel_password(69, None, pw, b"secret", &[7; 16]).unwrap().encode_bytes()),
        1 => salt(format!("tag-{w}"), AVP::from_tunnel_password(69, Some(&tag), pw, b"secret", &[0; 16]).unwrap().encode_bytes()),
        2 => {
            let mut q = Packet::new(code, b"secret").make_response_packet(Code::AccessAccept);
            rfc2868::add_tunnel_password(&mut q, None, pw).unwrap();
            salt(format!("dict-{w}"), q.lookup(rfc2868::TUNNEL_PASSWORD_TYPE).unwrap().encode_bytes());
        }
        _ => {
            let mut q = Packet::decode(&[&[1, 9, 0, 20][..], &[5; 16]].concat(), b"secret").unwrap();
            rfc2868::add_tunnel_password(&mut q, Some(&tag), pw).unwrap();
            rfc2868::add_tunnel_password(&mut q, Some(&tag), pw).unwrap();
            for (n, a) in q.lookup_all(rfc2868::TUNNEL_PASSWORD_TYPE).iter().enumerate() {
                salt(format!("packet-{n}-{w}"), a.encode_bytes());
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[1].parse().unwrap();
    let threads: usize = a[2].parse().unwrap();
    let bulk = a.get(4).is_some();
    let hs: Vec<_> = (0..threads)
        .map(|thread| {
            std::thread::spawn(move || {
                let mut out = vec![];
                if bulk {
                    // nothing but authenticators, many of them
                    for b in 0..n / threads / 1000 {
                        let auths: Vec<String> = (0..1000)
                            .map(|i| hex(if i % 2 == 0 { Packet::new(CODES[b % 6], b"s") } else { Packet::new_with_identifier(CODES[b % 6], b"s", i as u8) }.get_authenticator()))
                            .collect();
                        out.push(json!({"k": "bulk", "auths": auths}));
                    }
                    return out;
                }
                for i in 0..n / threads {
                    one(thread, i, &mut out);
                }
                out
            })
        })
        .collect();
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    for h in hs {
        for v in h.join().unwrap() {
            writeln!(f, "{v}").unwrap();
        }
    }
    f.flush().unwrap();
}
