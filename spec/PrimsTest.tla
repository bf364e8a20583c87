----------------------------- MODULE PrimsTest -----------------------------
(* Sanity of the primitives: the RFC 1321 test suite and longer inputs.    *)
(* Run both with and without the native class on the class path.           *)
EXTENDS RadiusPrims, TLC
Vectors == {
  <<"", "d41d8cd98f00b204e9800998ecf8427e">>,
  <<"61", "0cc175b9c0f1b6a831c399e269772661">>,
  <<"616263", "900150983cd24fb0d6963f7d28e17f72">>,
  <<"6d65737361676520646967657374", "f96b697d7cb7938d525a2f31aaf161d0">>,
  <<"6162636465666768696a6b6c6d6e6f707172737475767778797a", "c3fcd3d76192e4007dfb496cca67e13b">>,
  <<"4142434445464748494a4b4c4d4e4f505152535455565758595a6162636465666768696a6b6c6d6e6f707172737475767778797a30313233343536373839", "d174ab98d277d9f5a5611c2c9f419d9f">>,
  <<"3132333435363738393031323334353637383930313233343536373839303132333435363738393031323334353637383930313233343536373839303132333435363738393031323334353637383930", "57edf4a22be3c955ac49da2e2107b67a">>,
  <<"a5", "ab3af8566ddd20d7efc9b314abe90755">>,
  <<"4dca182530bb1d6d132cded6237b2e", "88bde2c17998680181c02017f384d555">>,
  <<"d91e3f721fcb1971174494d6493c9d5c", "560057e1e5ca70ead224af63d501fc7a">>,
  <<"3460be31201e69fedaa0eee8b9997f5c7c", "641f161cadb743d2349dd6d87a4826e2">>,
  <<"2999fdafe593253cd654af4dfad71427a0aeb3fee9232f8af2211f9ee491c5b10becb556", "c7d7cebc36f39d716f4f9449e4ac0f61">>,
  <<"3bfc1e6f93427ecbc8fe2955e5cd8e46dc8ed4b7c2764d2a5a4d767706f85d8690024ad6bda3401be9c8cbccc935f6cd1f61226ae15338", "8525b08baa81fd83070b053d6daae285">>,
  <<"ae1a34004d33ba0d246ac04c81b1baf23e3bf9eef5f79f2b4934af87f5520b69b94b0d982e85bb55b672a872637acd7466fcb60e0e8ff184", "a447ac1a48744847fa01f7e77d35b6f3">>,
  <<"63b0e4b2ba29703474f064ac68f700f5b02b3dc666f45bdeaa2ccaedcd2b5157410e4dee4af2b34f430a073447de636c0e806c957ba684d643", "6a9a784fd801ecf0bf37d2ce0c1d86c3">>,
  <<"1fb5ead7424d09e15d024c5848f23d1fa6f7361d7f618d1532e70e20e2a6668de7f47e8467e546d53ec8e2a1257bdb256c9b3e4fbb498146ef7030cbf95372", "8dd65604b1ec702b4ee0680ebd8ca598">>,
  <<"52dcceadd764b6a32fbb09adeae109c4a997203975352b878b145c8a42d884cf4cfda72d8e1d5dd92589082d852a7122873ee805add58942167a385286195c67", "3466209b699b04a986db940d061d432d">>,
  <<"9f9c6994e45b8ab1098012070961f37de436ddfdc99d6e75af6547cfb11b42072482dc531c2bc3907c9617eb5e5089e40186baa8a57d119e6fb65d00abc32af38e", "abd29794f3b86400da615abcbe609640">>,
  <<"667f022e872d49cc15c90b999b772b4fc7a6fd4c914a16db4708752b0f1544b835c0e719097dfa8701e9232f21f2812687786976ebfcc327f5931765274ba9829b4406f61ff889326ffa9492edeeee3c669f2bf20894ea27e689c66b6b262e4886b8438f39ba76fef8c90c5101fbe6cf9a48d5b0c0a13d", "f614ff9f7612d0f83c683d90b4954969">>,
  <<"a900a6adcb3d64069481be21c9c727b8db8c188f341a924c7f88dfa161bfdb0ecc682919d2e64692f8194157f1d4af90988285cf7a9af7c93d5552266afe70e7aae6da47627c2e59af2ea37abc84670ad3c4d36bc08aad1fff8eb8406e2f8a7fc4cce4dd9f0b4110d9f2fa0025c8efe57f37724f4d37ea2b", "88c0d77b47e8f5fd9adaed61c5c3aad2">>,
  <<"14004077139b4180df3932249962c6857200059aeb8ea17cf3787e0ed29d1c0b63ffd7298374d9bd74fc11add7b9ca6503952269fd669f6376ee71879737fd5f72f8d51c4ac91b6d0c48d41a1e5ec9e6a0392854a8615eef109fc1bfa9e2563701288f29b3d73f6ac2b69edd2c19f264bee462a5baf20fd27ecf14c011ed201f", "8a3bf534547a75113447930ac9d80c37">>,
  <<"836320adb98bab1686a28d9801210c7736f3eec580dcfc43fe5d049b4d78a7a3ebb92865c8517ed02111f6a652da3524872b6a31d7ffe4587744d5eb783e96968f89be828565e07e5f7d784e9060a721ca807d7633ed123402f376e5bf1496773d19616326be5be5850336b36f13bcae48166882136805a7d1be5e9f276810fdf720d033ca4f2e53cb8ad1919dd51a9fb6d4d509ba64c8cf6803de50d83a2ecfbaeb5342071a48cb2dbd574ab29152572237c4fb659a4016f7a11bc62c5271cf64f25d6f15cc50c4", "732f5fac701dbb02062a7df5bbf7ce97">> }
ASSUME \A v \in Vectors : MD5(HexBytes(v[1])) = HexBytes(v[2])
ASSUME \A a, b \in 0..255 : LET x == XorByte(a, b) IN x \in 0..255 /\ XorByte(x, b) = a /\ ((a + b) % 2 = x % 2)
ASSUME HexBytes("00ff10a9") = <<0, 255, 16, 169>>
ASSUME XorSeq(<<1, 2>>, <<3, 2, 9>>) = <<2, 0>>
=============================================================================
