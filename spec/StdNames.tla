------------------------------ MODULE StdNames ------------------------------
(* Glyph names 0..257 of the Macintosh order, CFF standard strings 0..390,   *)
(* all as bytes, and the characters 128..255 of Mac OS Roman.               *)
MacNames == <<
  <<46, 110, 111, 116, 100, 101, 102>>,
  <<46, 110, 117, 108, 108>>,
  <<110, 111, 110, 109, 97, 114, 107, 105, 110, 103, 114, 101, 116, 117, 114, 110>>,
  <<115, 112, 97, 99, 101>>,
  <<101, 120, 99, 108, 97, 109>>,
  <<113, 117, 111, 116, 101, 100, 98, 108>>,
  <<110, 117, 109, 98, 101, 114, 115, 105, 103, 110>>,
  <<100, 111, 108, 108, 97, 114>>,
  <<112, 101, 114, 99, 101, 110, 116>>,
  <<97, 109, 112, 101, 114, 115, 97, 110, 100>>,
  <<113, 117, 111, 116, 101, 115, 105, 110, 103, 108, 101>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116>>,
  <<97, 115, 116, 101, 114, 105, 115, 107>>,
  <<112, 108, 117, 115>>,
  <<99, 111, 109, 109, 97>>,
  <<104, 121, 112, 104, 101, 110>>,
  <<112, 101, 114, 105, 111, 100>>,
  <<115, 108, 97, 115, 104>>,
  <<122, 101, 114, 111>>,
  <<111, 110, 101>>,
  <<116, 119, 111>>,
  <<116, 104, 114, 101, 101>>,
  <<102, 111, 117, 114>>,
  <<102, 105, 118, 101>>,
  <<115, 105, 120>>,
  <<115, 101, 118, 101, 110>>,
  <<101, 105, 103, 104, 116>>,
  <<110, 105, 110, 101>>,
  <<99, 111, 108, 111, 110>>,
  <<115, 101, 109, 105, 99, 111, 108, 111, 110>>,
  <<108, 101, 115, 115>>,
  <<101, 113, 117, 97, 108>>,
  <<103, 114, 101, 97, 116, 101, 114>>,
  <<113, 117, 101, 115, 116, 105, 111, 110>>,
  <<97, 116>>,
  <<65>>,
  <<66>>,
  <<67>>,
  <<68>>,
  <<69>>,
  <<70>>,
  <<71>>,
  <<72>>,
  <<73>>,
  <<74>>,
  <<75>>,
  <<76>>,
  <<77>>,
  <<78>>,
  <<79>>,
  <<80>>,
  <<81>>,
  <<82>>,
  <<83>>,
  <<84>>,
  <<85>>,
  <<86>>,
  <<87>>,
  <<88>>,
  <<89>>,
  <<90>>,
  <<98, 114, 97, 99, 107, 101, 116, 108, 101, 102, 116>>,
  <<98, 97, 99, 107, 115, 108, 97, 115, 104>>,
  <<98, 114, 97, 99, 107, 101, 116, 114, 105, 103, 104, 116>>,
  <<97, 115, 99, 105, 105, 99, 105, 114, 99, 117, 109>>,
  <<117, 110, 100, 101, 114, 115, 99, 111, 114, 101>>,
  <<103, 114, 97, 118, 101>>,
  <<97>>,
  <<98>>,
  <<99>>,
  <<100>>,
  <<101>>,
  <<102>>,
  <<103>>,
  <<104>>,
  <<105>>,
  <<106>>,
  <<107>>,
  <<108>>,
  <<109>>,
  <<110>>,
  <<111>>,
  <<112>>,
  <<113>>,
  <<114>>,
  <<115>>,
  <<116>>,
  <<117>>,
  <<118>>,
  <<119>>,
  <<120>>,
  <<121>>,
  <<122>>,
  <<98, 114, 97, 99, 101, 108, 101, 102, 116>>,
  <<98, 97, 114>>,
  <<98, 114, 97, 99, 101, 114, 105, 103, 104, 116>>,
  <<97, 115, 99, 105, 105, 116, 105, 108, 100, 101>>,
  <<65, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<65, 114, 105, 110, 103>>,
  <<67, 99, 101, 100, 105, 108, 108, 97>>,
  <<69, 97, 99, 117, 116, 101>>,
  <<78, 116, 105, 108, 100, 101>>,
  <<79, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<85, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<97, 97, 99, 117, 116, 101>>,
  <<97, 103, 114, 97, 118, 101>>,
  <<97, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<97, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<97, 116, 105, 108, 100, 101>>,
  <<97, 114, 105, 110, 103>>,
  <<99, 99, 101, 100, 105, 108, 108, 97>>,
  <<101, 97, 99, 117, 116, 101>>,
  <<101, 103, 114, 97, 118, 101>>,
  <<101, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<101, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<105, 97, 99, 117, 116, 101>>,
  <<105, 103, 114, 97, 118, 101>>,
  <<105, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<105, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<110, 116, 105, 108, 100, 101>>,
  <<111, 97, 99, 117, 116, 101>>,
  <<111, 103, 114, 97, 118, 101>>,
  <<111, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<111, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<111, 116, 105, 108, 100, 101>>,
  <<117, 97, 99, 117, 116, 101>>,
  <<117, 103, 114, 97, 118, 101>>,
  <<117, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<117, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<100, 97, 103, 103, 101, 114>>,
  <<100, 101, 103, 114, 101, 101>>,
  <<99, 101, 110, 116>>,
  <<115, 116, 101, 114, 108, 105, 110, 103>>,
  <<115, 101, 99, 116, 105, 111, 110>>,
  <<98, 117, 108, 108, 101, 116>>,
  <<112, 97, 114, 97, 103, 114, 97, 112, 104>>,
  <<103, 101, 114, 109, 97, 110, 100, 98, 108, 115>>,
  <<114, 101, 103, 105, 115, 116, 101, 114, 101, 100>>,
  <<99, 111, 112, 121, 114, 105, 103, 104, 116>>,
  <<116, 114, 97, 100, 101, 109, 97, 114, 107>>,
  <<97, 99, 117, 116, 101>>,
  <<100, 105, 101, 114, 101, 115, 105, 115>>,
  <<110, 111, 116, 101, 113, 117, 97, 108>>,
  <<65, 69>>,
  <<79, 115, 108, 97, 115, 104>>,
  <<105, 110, 102, 105, 110, 105, 116, 121>>,
  <<112, 108, 117, 115, 109, 105, 110, 117, 115>>,
  <<108, 101, 115, 115, 101, 113, 117, 97, 108>>,
  <<103, 114, 101, 97, 116, 101, 114, 101, 113, 117, 97, 108>>,
  <<121, 101, 110>>,
  <<109, 117>>,
  <<112, 97, 114, 116, 105, 97, 108, 100, 105, 102, 102>>,
  <<115, 117, 109, 109, 97, 116, 105, 111, 110>>,
  <<112, 114, 111, 100, 117, 99, 116>>,
  <<112, 105>>,
  <<105, 110, 116, 101, 103, 114, 97, 108>>,
  <<111, 114, 100, 102, 101, 109, 105, 110, 105, 110, 101>>,
  <<111, 114, 100, 109, 97, 115, 99, 117, 108, 105, 110, 101>>,
  <<79, 109, 101, 103, 97>>,
  <<97, 101>>,
  <<111, 115, 108, 97, 115, 104>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 100, 111, 119, 110>>,
  <<101, 120, 99, 108, 97, 109, 100, 111, 119, 110>>,
  <<108, 111, 103, 105, 99, 97, 108, 110, 111, 116>>,
  <<114, 97, 100, 105, 99, 97, 108>>,
  <<102, 108, 111, 114, 105, 110>>,
  <<97, 112, 112, 114, 111, 120, 101, 113, 117, 97, 108>>,
  <<68, 101, 108, 116, 97>>,
  <<103, 117, 105, 108, 108, 101, 109, 111, 116, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 108, 101, 109, 111, 116, 114, 105, 103, 104, 116>>,
  <<101, 108, 108, 105, 112, 115, 105, 115>>,
  <<110, 111, 110, 98, 114, 101, 97, 107, 105, 110, 103, 115, 112, 97, 99, 101>>,
  <<65, 103, 114, 97, 118, 101>>,
  <<65, 116, 105, 108, 100, 101>>,
  <<79, 116, 105, 108, 100, 101>>,
  <<79, 69>>,
  <<111, 101>>,
  <<101, 110, 100, 97, 115, 104>>,
  <<101, 109, 100, 97, 115, 104>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 108, 101, 102, 116>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 114, 105, 103, 104, 116>>,
  <<113, 117, 111, 116, 101, 108, 101, 102, 116>>,
  <<113, 117, 111, 116, 101, 114, 105, 103, 104, 116>>,
  <<100, 105, 118, 105, 100, 101>>,
  <<108, 111, 122, 101, 110, 103, 101>>,
  <<121, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<89, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<102, 114, 97, 99, 116, 105, 111, 110>>,
  <<99, 117, 114, 114, 101, 110, 99, 121>>,
  <<103, 117, 105, 108, 115, 105, 110, 103, 108, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 115, 105, 110, 103, 108, 114, 105, 103, 104, 116>>,
  <<102, 105>>,
  <<102, 108>>,
  <<100, 97, 103, 103, 101, 114, 100, 98, 108>>,
  <<112, 101, 114, 105, 111, 100, 99, 101, 110, 116, 101, 114, 101, 100>>,
  <<113, 117, 111, 116, 101, 115, 105, 110, 103, 108, 98, 97, 115, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 98, 97, 115, 101>>,
  <<112, 101, 114, 116, 104, 111, 117, 115, 97, 110, 100>>,
  <<65, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<69, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<65, 97, 99, 117, 116, 101>>,
  <<69, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<69, 103, 114, 97, 118, 101>>,
  <<73, 97, 99, 117, 116, 101>>,
  <<73, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<73, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<73, 103, 114, 97, 118, 101>>,
  <<79, 97, 99, 117, 116, 101>>,
  <<79, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<97, 112, 112, 108, 101>>,
  <<79, 103, 114, 97, 118, 101>>,
  <<85, 97, 99, 117, 116, 101>>,
  <<85, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<85, 103, 114, 97, 118, 101>>,
  <<100, 111, 116, 108, 101, 115, 115, 105>>,
  <<99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<116, 105, 108, 100, 101>>,
  <<109, 97, 99, 114, 111, 110>>,
  <<98, 114, 101, 118, 101>>,
  <<100, 111, 116, 97, 99, 99, 101, 110, 116>>,
  <<114, 105, 110, 103>>,
  <<99, 101, 100, 105, 108, 108, 97>>,
  <<104, 117, 110, 103, 97, 114, 117, 109, 108, 97, 117, 116>>,
  <<111, 103, 111, 110, 101, 107>>,
  <<99, 97, 114, 111, 110>>,
  <<76, 115, 108, 97, 115, 104>>,
  <<108, 115, 108, 97, 115, 104>>,
  <<83, 99, 97, 114, 111, 110>>,
  <<115, 99, 97, 114, 111, 110>>,
  <<90, 99, 97, 114, 111, 110>>,
  <<122, 99, 97, 114, 111, 110>>,
  <<98, 114, 111, 107, 101, 110, 98, 97, 114>>,
  <<69, 116, 104>>,
  <<101, 116, 104>>,
  <<89, 97, 99, 117, 116, 101>>,
  <<121, 97, 99, 117, 116, 101>>,
  <<84, 104, 111, 114, 110>>,
  <<116, 104, 111, 114, 110>>,
  <<109, 105, 110, 117, 115>>,
  <<109, 117, 108, 116, 105, 112, 108, 121>>,
  <<111, 110, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 119, 111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 104, 114, 101, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<111, 110, 101, 104, 97, 108, 102>>,
  <<111, 110, 101, 113, 117, 97, 114, 116, 101, 114>>,
  <<116, 104, 114, 101, 101, 113, 117, 97, 114, 116, 101, 114, 115>>,
  <<102, 114, 97, 110, 99>>,
  <<71, 98, 114, 101, 118, 101>>,
  <<103, 98, 114, 101, 118, 101>>,
  <<73, 100, 111, 116, 97, 99, 99, 101, 110, 116>>,
  <<83, 99, 101, 100, 105, 108, 108, 97>>,
  <<115, 99, 101, 100, 105, 108, 108, 97>>,
  <<67, 97, 99, 117, 116, 101>>,
  <<99, 97, 99, 117, 116, 101>>,
  <<67, 99, 97, 114, 111, 110>>,
  <<99, 99, 97, 114, 111, 110>>,
  <<100, 99, 114, 111, 97, 116>> >>

CffStrings == <<
  <<46, 110, 111, 116, 100, 101, 102>>,
  <<115, 112, 97, 99, 101>>,
  <<101, 120, 99, 108, 97, 109>>,
  <<113, 117, 111, 116, 101, 100, 98, 108>>,
  <<110, 117, 109, 98, 101, 114, 115, 105, 103, 110>>,
  <<100, 111, 108, 108, 97, 114>>,
  <<112, 101, 114, 99, 101, 110, 116>>,
  <<97, 109, 112, 101, 114, 115, 97, 110, 100>>,
  <<113, 117, 111, 116, 101, 114, 105, 103, 104, 116>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116>>,
  <<97, 115, 116, 101, 114, 105, 115, 107>>,
  <<112, 108, 117, 115>>,
  <<99, 111, 109, 109, 97>>,
  <<104, 121, 112, 104, 101, 110>>,
  <<112, 101, 114, 105, 111, 100>>,
  <<115, 108, 97, 115, 104>>,
  <<122, 101, 114, 111>>,
  <<111, 110, 101>>,
  <<116, 119, 111>>,
  <<116, 104, 114, 101, 101>>,
  <<102, 111, 117, 114>>,
  <<102, 105, 118, 101>>,
  <<115, 105, 120>>,
  <<115, 101, 118, 101, 110>>,
  <<101, 105, 103, 104, 116>>,
  <<110, 105, 110, 101>>,
  <<99, 111, 108, 111, 110>>,
  <<115, 101, 109, 105, 99, 111, 108, 111, 110>>,
  <<108, 101, 115, 115>>,
  <<101, 113, 117, 97, 108>>,
  <<103, 114, 101, 97, 116, 101, 114>>,
  <<113, 117, 101, 115, 116, 105, 111, 110>>,
  <<97, 116>>,
  <<65>>,
  <<66>>,
  <<67>>,
  <<68>>,
  <<69>>,
  <<70>>,
  <<71>>,
  <<72>>,
  <<73>>,
  <<74>>,
  <<75>>,
  <<76>>,
  <<77>>,
  <<78>>,
  <<79>>,
  <<80>>,
  <<81>>,
  <<82>>,
  <<83>>,
  <<84>>,
  <<85>>,
  <<86>>,
  <<87>>,
  <<88>>,
  <<89>>,
  <<90>>,
  <<98, 114, 97, 99, 107, 101, 116, 108, 101, 102, 116>>,
  <<98, 97, 99, 107, 115, 108, 97, 115, 104>>,
  <<98, 114, 97, 99, 107, 101, 116, 114, 105, 103, 104, 116>>,
  <<97, 115, 99, 105, 105, 99, 105, 114, 99, 117, 109>>,
  <<117, 110, 100, 101, 114, 115, 99, 111, 114, 101>>,
  <<113, 117, 111, 116, 101, 108, 101, 102, 116>>,
  <<97>>,
  <<98>>,
  <<99>>,
  <<100>>,
  <<101>>,
  <<102>>,
  <<103>>,
  <<104>>,
  <<105>>,
  <<106>>,
  <<107>>,
  <<108>>,
  <<109>>,
  <<110>>,
  <<111>>,
  <<112>>,
  <<113>>,
  <<114>>,
  <<115>>,
  <<116>>,
  <<117>>,
  <<118>>,
  <<119>>,
  <<120>>,
  <<121>>,
  <<122>>,
  <<98, 114, 97, 99, 101, 108, 101, 102, 116>>,
  <<98, 97, 114>>,
  <<98, 114, 97, 99, 101, 114, 105, 103, 104, 116>>,
  <<97, 115, 99, 105, 105, 116, 105, 108, 100, 101>>,
  <<101, 120, 99, 108, 97, 109, 100, 111, 119, 110>>,
  <<99, 101, 110, 116>>,
  <<115, 116, 101, 114, 108, 105, 110, 103>>,
  <<102, 114, 97, 99, 116, 105, 111, 110>>,
  <<121, 101, 110>>,
  <<102, 108, 111, 114, 105, 110>>,
  <<115, 101, 99, 116, 105, 111, 110>>,
  <<99, 117, 114, 114, 101, 110, 99, 121>>,
  <<113, 117, 111, 116, 101, 115, 105, 110, 103, 108, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 108, 101, 109, 111, 116, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 115, 105, 110, 103, 108, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 115, 105, 110, 103, 108, 114, 105, 103, 104, 116>>,
  <<102, 105>>,
  <<102, 108>>,
  <<101, 110, 100, 97, 115, 104>>,
  <<100, 97, 103, 103, 101, 114>>,
  <<100, 97, 103, 103, 101, 114, 100, 98, 108>>,
  <<112, 101, 114, 105, 111, 100, 99, 101, 110, 116, 101, 114, 101, 100>>,
  <<112, 97, 114, 97, 103, 114, 97, 112, 104>>,
  <<98, 117, 108, 108, 101, 116>>,
  <<113, 117, 111, 116, 101, 115, 105, 110, 103, 108, 98, 97, 115, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 98, 97, 115, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 114, 105, 103, 104, 116>>,
  <<103, 117, 105, 108, 108, 101, 109, 111, 116, 114, 105, 103, 104, 116>>,
  <<101, 108, 108, 105, 112, 115, 105, 115>>,
  <<112, 101, 114, 116, 104, 111, 117, 115, 97, 110, 100>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 100, 111, 119, 110>>,
  <<103, 114, 97, 118, 101>>,
  <<97, 99, 117, 116, 101>>,
  <<99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<116, 105, 108, 100, 101>>,
  <<109, 97, 99, 114, 111, 110>>,
  <<98, 114, 101, 118, 101>>,
  <<100, 111, 116, 97, 99, 99, 101, 110, 116>>,
  <<100, 105, 101, 114, 101, 115, 105, 115>>,
  <<114, 105, 110, 103>>,
  <<99, 101, 100, 105, 108, 108, 97>>,
  <<104, 117, 110, 103, 97, 114, 117, 109, 108, 97, 117, 116>>,
  <<111, 103, 111, 110, 101, 107>>,
  <<99, 97, 114, 111, 110>>,
  <<101, 109, 100, 97, 115, 104>>,
  <<65, 69>>,
  <<111, 114, 100, 102, 101, 109, 105, 110, 105, 110, 101>>,
  <<76, 115, 108, 97, 115, 104>>,
  <<79, 115, 108, 97, 115, 104>>,
  <<79, 69>>,
  <<111, 114, 100, 109, 97, 115, 99, 117, 108, 105, 110, 101>>,
  <<97, 101>>,
  <<100, 111, 116, 108, 101, 115, 115, 105>>,
  <<108, 115, 108, 97, 115, 104>>,
  <<111, 115, 108, 97, 115, 104>>,
  <<111, 101>>,
  <<103, 101, 114, 109, 97, 110, 100, 98, 108, 115>>,
  <<111, 110, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<108, 111, 103, 105, 99, 97, 108, 110, 111, 116>>,
  <<109, 117>>,
  <<116, 114, 97, 100, 101, 109, 97, 114, 107>>,
  <<69, 116, 104>>,
  <<111, 110, 101, 104, 97, 108, 102>>,
  <<112, 108, 117, 115, 109, 105, 110, 117, 115>>,
  <<84, 104, 111, 114, 110>>,
  <<111, 110, 101, 113, 117, 97, 114, 116, 101, 114>>,
  <<100, 105, 118, 105, 100, 101>>,
  <<98, 114, 111, 107, 101, 110, 98, 97, 114>>,
  <<100, 101, 103, 114, 101, 101>>,
  <<116, 104, 111, 114, 110>>,
  <<116, 104, 114, 101, 101, 113, 117, 97, 114, 116, 101, 114, 115>>,
  <<116, 119, 111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<114, 101, 103, 105, 115, 116, 101, 114, 101, 100>>,
  <<109, 105, 110, 117, 115>>,
  <<101, 116, 104>>,
  <<109, 117, 108, 116, 105, 112, 108, 121>>,
  <<116, 104, 114, 101, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<99, 111, 112, 121, 114, 105, 103, 104, 116>>,
  <<65, 97, 99, 117, 116, 101>>,
  <<65, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<65, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<65, 103, 114, 97, 118, 101>>,
  <<65, 114, 105, 110, 103>>,
  <<65, 116, 105, 108, 100, 101>>,
  <<67, 99, 101, 100, 105, 108, 108, 97>>,
  <<69, 97, 99, 117, 116, 101>>,
  <<69, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<69, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<69, 103, 114, 97, 118, 101>>,
  <<73, 97, 99, 117, 116, 101>>,
  <<73, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<73, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<73, 103, 114, 97, 118, 101>>,
  <<78, 116, 105, 108, 100, 101>>,
  <<79, 97, 99, 117, 116, 101>>,
  <<79, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<79, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<79, 103, 114, 97, 118, 101>>,
  <<79, 116, 105, 108, 100, 101>>,
  <<83, 99, 97, 114, 111, 110>>,
  <<85, 97, 99, 117, 116, 101>>,
  <<85, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<85, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<85, 103, 114, 97, 118, 101>>,
  <<89, 97, 99, 117, 116, 101>>,
  <<89, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<90, 99, 97, 114, 111, 110>>,
  <<97, 97, 99, 117, 116, 101>>,
  <<97, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<97, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<97, 103, 114, 97, 118, 101>>,
  <<97, 114, 105, 110, 103>>,
  <<97, 116, 105, 108, 100, 101>>,
  <<99, 99, 101, 100, 105, 108, 108, 97>>,
  <<101, 97, 99, 117, 116, 101>>,
  <<101, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<101, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<101, 103, 114, 97, 118, 101>>,
  <<105, 97, 99, 117, 116, 101>>,
  <<105, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<105, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<105, 103, 114, 97, 118, 101>>,
  <<110, 116, 105, 108, 100, 101>>,
  <<111, 97, 99, 117, 116, 101>>,
  <<111, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<111, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<111, 103, 114, 97, 118, 101>>,
  <<111, 116, 105, 108, 100, 101>>,
  <<115, 99, 97, 114, 111, 110>>,
  <<117, 97, 99, 117, 116, 101>>,
  <<117, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<117, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<117, 103, 114, 97, 118, 101>>,
  <<121, 97, 99, 117, 116, 101>>,
  <<121, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<122, 99, 97, 114, 111, 110>>,
  <<101, 120, 99, 108, 97, 109, 115, 109, 97, 108, 108>>,
  <<72, 117, 110, 103, 97, 114, 117, 109, 108, 97, 117, 116, 115, 109, 97, 108, 108>>,
  <<100, 111, 108, 108, 97, 114, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<100, 111, 108, 108, 97, 114, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<97, 109, 112, 101, 114, 115, 97, 110, 100, 115, 109, 97, 108, 108>>,
  <<65, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 119, 111, 100, 111, 116, 101, 110, 108, 101, 97, 100, 101, 114>>,
  <<111, 110, 101, 100, 111, 116, 101, 110, 108, 101, 97, 100, 101, 114>>,
  <<122, 101, 114, 111, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<111, 110, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<116, 119, 111, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<116, 104, 114, 101, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<102, 111, 117, 114, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<102, 105, 118, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<115, 105, 120, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<115, 101, 118, 101, 110, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<101, 105, 103, 104, 116, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<110, 105, 110, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<99, 111, 109, 109, 97, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 104, 114, 101, 101, 113, 117, 97, 114, 116, 101, 114, 115, 101, 109, 100, 97, 115, 104>>,
  <<112, 101, 114, 105, 111, 100, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 115, 109, 97, 108, 108>>,
  <<97, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<98, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<99, 101, 110, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<100, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<105, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<108, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<109, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<110, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<114, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<115, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<102, 102>>,
  <<102, 102, 105>>,
  <<102, 102, 108>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<67, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<104, 121, 112, 104, 101, 110, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<71, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<65, 115, 109, 97, 108, 108>>,
  <<66, 115, 109, 97, 108, 108>>,
  <<67, 115, 109, 97, 108, 108>>,
  <<68, 115, 109, 97, 108, 108>>,
  <<69, 115, 109, 97, 108, 108>>,
  <<70, 115, 109, 97, 108, 108>>,
  <<71, 115, 109, 97, 108, 108>>,
  <<72, 115, 109, 97, 108, 108>>,
  <<73, 115, 109, 97, 108, 108>>,
  <<74, 115, 109, 97, 108, 108>>,
  <<75, 115, 109, 97, 108, 108>>,
  <<76, 115, 109, 97, 108, 108>>,
  <<77, 115, 109, 97, 108, 108>>,
  <<78, 115, 109, 97, 108, 108>>,
  <<79, 115, 109, 97, 108, 108>>,
  <<80, 115, 109, 97, 108, 108>>,
  <<81, 115, 109, 97, 108, 108>>,
  <<82, 115, 109, 97, 108, 108>>,
  <<83, 115, 109, 97, 108, 108>>,
  <<84, 115, 109, 97, 108, 108>>,
  <<85, 115, 109, 97, 108, 108>>,
  <<86, 115, 109, 97, 108, 108>>,
  <<87, 115, 109, 97, 108, 108>>,
  <<88, 115, 109, 97, 108, 108>>,
  <<89, 115, 109, 97, 108, 108>>,
  <<90, 115, 109, 97, 108, 108>>,
  <<99, 111, 108, 111, 110, 109, 111, 110, 101, 116, 97, 114, 121>>,
  <<111, 110, 101, 102, 105, 116, 116, 101, 100>>,
  <<114, 117, 112, 105, 97, 104>>,
  <<84, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<101, 120, 99, 108, 97, 109, 100, 111, 119, 110, 115, 109, 97, 108, 108>>,
  <<99, 101, 110, 116, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<76, 115, 108, 97, 115, 104, 115, 109, 97, 108, 108>>,
  <<83, 99, 97, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<90, 99, 97, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<68, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<66, 114, 101, 118, 101, 115, 109, 97, 108, 108>>,
  <<67, 97, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<68, 111, 116, 97, 99, 99, 101, 110, 116, 115, 109, 97, 108, 108>>,
  <<77, 97, 99, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<102, 105, 103, 117, 114, 101, 100, 97, 115, 104>>,
  <<104, 121, 112, 104, 101, 110, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<79, 103, 111, 110, 101, 107, 115, 109, 97, 108, 108>>,
  <<82, 105, 110, 103, 115, 109, 97, 108, 108>>,
  <<67, 101, 100, 105, 108, 108, 97, 115, 109, 97, 108, 108>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 100, 111, 119, 110, 115, 109, 97, 108, 108>>,
  <<111, 110, 101, 101, 105, 103, 104, 116, 104>>,
  <<116, 104, 114, 101, 101, 101, 105, 103, 104, 116, 104, 115>>,
  <<102, 105, 118, 101, 101, 105, 103, 104, 116, 104, 115>>,
  <<115, 101, 118, 101, 110, 101, 105, 103, 104, 116, 104, 115>>,
  <<111, 110, 101, 116, 104, 105, 114, 100>>,
  <<116, 119, 111, 116, 104, 105, 114, 100, 115>>,
  <<122, 101, 114, 111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<102, 111, 117, 114, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<102, 105, 118, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<115, 105, 120, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<115, 101, 118, 101, 110, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<101, 105, 103, 104, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<110, 105, 110, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<122, 101, 114, 111, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<111, 110, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<116, 119, 111, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<116, 104, 114, 101, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<102, 111, 117, 114, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<102, 105, 118, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<115, 105, 120, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<115, 101, 118, 101, 110, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<101, 105, 103, 104, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<110, 105, 110, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<99, 101, 110, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<100, 111, 108, 108, 97, 114, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<112, 101, 114, 105, 111, 100, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<99, 111, 109, 109, 97, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<65, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<65, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<65, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<65, 116, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<65, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<65, 114, 105, 110, 103, 115, 109, 97, 108, 108>>,
  <<65, 69, 115, 109, 97, 108, 108>>,
  <<67, 99, 101, 100, 105, 108, 108, 97, 115, 109, 97, 108, 108>>,
  <<69, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<69, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<69, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<69, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<73, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<73, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<73, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<73, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<69, 116, 104, 115, 109, 97, 108, 108>>,
  <<78, 116, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<79, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<79, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<79, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<79, 116, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<79, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<79, 69, 115, 109, 97, 108, 108>>,
  <<79, 115, 108, 97, 115, 104, 115, 109, 97, 108, 108>>,
  <<85, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<85, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<85, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<85, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<89, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<84, 104, 111, 114, 110, 115, 109, 97, 108, 108>>,
  <<89, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<48, 48, 49, 46, 48, 48, 48>>,
  <<48, 48, 49, 46, 48, 48, 49>>,
  <<48, 48, 49, 46, 48, 48, 50>>,
  <<48, 48, 49, 46, 48, 48, 51>>,
  <<66, 108, 97, 99, 107>>,
  <<66, 111, 108, 100>>,
  <<66, 111, 111, 107>>,
  <<76, 105, 103, 104, 116>>,
  <<77, 101, 100, 105, 117, 109>>,
  <<82, 101, 103, 117, 108, 97, 114>>,
  <<82, 111, 109, 97, 110>>,
  <<83, 101, 109, 105, 98, 111, 108, 100>> >>

MacRoman == <<196, 197, 199, 201, 209, 214, 220, 225, 224, 226, 228, 227, 229, 231, 233, 232, 234, 235, 237, 236, 238, 239, 241, 243, 242, 244, 246, 245, 250, 249, 251, 252, 8224, 176, 162, 163, 167, 8226, 182, 223, 174, 169, 8482, 180, 168, 8800, 198, 216, 8734, 177, 8804, 8805, 165, 181, 8706, 8721, 8719, 960, 8747, 170, 186, 937, 230, 248, 191, 161, 172, 8730, 402, 8776, 8710, 171, 187, 8230, 160, 192, 195, 213, 338, 339, 8211, 8212, 8220, 8221, 8216, 8217, 247, 9674, 255, 376, 8260, 8364, 8249, 8250, 64257, 64258, 8225, 183, 8218, 8222, 8240, 194, 202, 193, 203, 200, 205, 206, 207, 204, 211, 212, 63743, 210, 218, 219, 217, 305, 710, 732, 175, 728, 729, 730, 184, 733, 731, 711>>
=============================================================================
