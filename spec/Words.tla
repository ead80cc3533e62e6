------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Names and texts as they occur in games, and what code could take for    *)
(* special in them: prefixes and suffixes of objects, classes, enums and   *)
(* instances, paths, numbers, cultures, zones, identifiers, markup.        *)
(* Written by a script; read them as characters.                           *)
(***************************************************************************)
GameWords == <<
  <<66, 80, 95, 72, 101, 114, 111>>,
  <<68, 101, 102, 97, 117, 108, 116, 95, 95, 72, 101, 114, 111>>,
  <<47, 83, 99, 114, 105, 112, 116, 47, 72, 101, 114, 111>>,
  <<47, 71, 97, 109, 101, 47, 72, 101, 114, 111>>,
  <<69, 72, 101, 114, 111>>,
  <<70, 72, 101, 114, 111>>,
  <<85, 72, 101, 114, 111>>,
  <<65, 72, 101, 114, 111>>,
  <<84, 72, 101, 114, 111>>,
  <<73, 72, 101, 114, 111>>,
  <<83, 95, 72, 101, 114, 111>>,
  <<98, 72, 101, 114, 111>>,
  <<98, 95, 72, 101, 114, 111>>,
  <<95, 72, 101, 114, 111>>,
  <<95, 95, 72, 101, 114, 111>>,
  <<45, 72, 101, 114, 111>>,
  <<43, 72, 101, 114, 111>>,
  <<47, 72, 101, 114, 111>>,
  <<47, 47, 72, 101, 114, 111>>,
  <<58, 72, 101, 114, 111>>,
  <<58, 58, 72, 101, 114, 111>>,
  <<46, 72, 101, 114, 111>>,
  <<46, 46, 72, 101, 114, 111>>,
  <<123, 72, 101, 114, 111>>,
  <<91, 72, 101, 114, 111>>,
  <<40, 72, 101, 114, 111>>,
  <<35, 72, 101, 114, 111>>,
  <<64, 72, 101, 114, 111>>,
  <<126, 72, 101, 114, 111>>,
  <<42, 72, 101, 114, 111>>,
  <<63, 72, 101, 114, 111>>,
  <<79, 108, 100, 95, 72, 101, 114, 111>>,
  <<82, 69, 73, 78, 83, 84, 95, 72, 101, 114, 111>>,
  <<83, 75, 69, 76, 95, 72, 101, 114, 111>>,
  <<84, 82, 65, 83, 72, 95, 72, 101, 114, 111>>,
  <<67, 108, 97, 115, 115, 32, 72, 101, 114, 111>>,
  <<83, 116, 114, 117, 99, 116, 72, 101, 114, 111>>,
  <<69, 110, 117, 109, 72, 101, 114, 111>>,
  <<69, 72, 101, 114, 111, 58, 58, 72, 101, 114, 111>>,
  <<76, 95, 72, 101, 114, 111>>,
  <<126, 72, 101, 114, 111, 46, 72, 101, 114, 111>>,
  <<48, 72, 101, 114, 111>>,
  <<49, 72, 101, 114, 111>>,
  <<48, 120, 72, 101, 114, 111>>,
  <<72, 101, 114, 111, 95, 67>>,
  <<72, 101, 114, 111, 95, 48>>,
  <<72, 101, 114, 111, 95, 49>>,
  <<72, 101, 114, 111, 95, 49, 50>>,
  <<72, 101, 114, 111, 95, 50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>,
  <<72, 101, 114, 111, 95, 48, 49>>,
  <<72, 101, 114, 111, 48>>,
  <<72, 101, 114, 111, 49>>,
  <<72, 101, 114, 111, 57>>,
  <<72, 101, 114, 111, 80, 114, 111, 112, 101, 114, 116, 121>>,
  <<72, 101, 114, 111, 58, 58>>,
  <<72, 101, 114, 111, 58, 58, 65>>,
  <<72, 101, 114, 111, 58, 58, 77, 65, 88>>,
  <<72, 101, 114, 111, 95, 77, 65, 88>>,
  <<72, 101, 114, 111, 95, 71, 69, 78, 95, 86, 65, 82, 73, 65, 66, 76, 69>>,
  <<72, 101, 114, 111, 46, 48>>,
  <<72, 101, 114, 111, 91, 48, 93>>,
  <<72, 101, 114, 111, 91, 49, 93>>,
  <<72, 101, 114, 111, 40, 41>>,
  <<72, 101, 114, 111, 47>>,
  <<72, 101, 114, 111, 39>>,
  <<72, 101, 114, 111, 34>>,
  <<72, 101, 114, 111, 58>>,
  <<72, 101, 114, 111, 59>>,
  <<72, 101, 114, 111, 44>>,
  <<72, 101, 114, 111, 61>>,
  <<72, 101, 114, 111, 95>>,
  <<72, 101, 114, 111, 95, 95>>,
  <<72, 101, 114, 111, 45>>,
  <<72, 101, 114, 111, 32>>,
  <<72, 101, 114, 111, 9>>,
  <<72, 101, 114, 111, 83, 116, 114, 117, 99, 116>>,
  <<72, 101, 114, 111, 69, 110, 117, 109>>,
  <<72, 101, 114, 111, 79, 108, 100>>,
  <<72, 101, 114, 111, 95, 68, 69, 80, 82, 69, 67, 65, 84, 69, 68>>,
  <<72, 101, 114, 111, 95, 83, 75, 69, 76>>,
  <<72, 101, 114, 111, 95, 73, 110, 115, 116>>,
  <<72, 101, 114, 111, 82, 101, 102>>,
  <<72, 101, 114, 111, 80, 116, 114>>,
  <<72, 101, 114, 111, 73, 100>>,
  <<72, 101, 114, 111, 73, 68>>,
  <<72, 101, 114, 111, 71, 117, 105, 100>>,
  <<72, 101, 114, 111, 78, 97, 109, 101>>,
  <<72, 101, 114, 111, 84, 101, 120, 116>>,
  <<72, 101, 114, 111, 86, 97, 108, 117, 101>>,
  <<72, 101, 114, 111, 75, 101, 121>>,
  <<72, 101, 114, 111, 35, 48>>,
  <<72, 101, 114, 111, 64>>,
  <<72, 101, 114, 111, 33>>,
  <<72, 101, 114, 111, 63>>,
  <<72, 101, 114, 111, 42>>,
  <<72, 101, 114, 111, 38>>,
  <<72, 101, 114, 111, 37>>,
  <<72, 101, 114, 111, 37, 100>>,
  <<72, 101, 114, 111, 123, 48, 125>>,
  <<72, 101, 114, 111, 46, 46, 46>>,
  <<72, 101, 114, 111, 46, 115, 97, 118>>,
  <<72, 101, 114, 111, 46, 106, 115, 111, 110>>,
  <<72, 101, 114, 111, 0>>,
  <<72, 101, 114, 111, 92>>,
  <<72, 101, 114, 111, 95, 65, 49, 66, 50, 67, 51, 68, 52, 69, 53, 70, 54, 48, 55, 49, 56, 50, 57, 51, 65, 52, 66, 53, 67, 54, 68, 55, 69, 56, 70, 57, 48>>,
  <<72, 101, 114, 111, 95, 51, 95, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 65, 66, 67, 68, 69, 70, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 65, 66, 67, 68, 69, 70>>,
  <<48, 48, 55>>,
  <<49, 46, 48>>,
  <<49, 101, 53>>,
  <<48, 120, 49, 48>>,
  <<43, 49>>,
  <<45, 48>>,
  <<45, 49, 46, 53>>,
  <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>,
  <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>,
  <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 57>>,
  <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>,
  <<47, 71, 97, 109, 101, 47, 77, 97, 112, 115, 47, 77, 46, 77, 58, 80, 101, 114, 115, 105, 115, 116, 101, 110, 116, 76, 101, 118, 101, 108, 46, 65, 95, 49>>,
  <<67, 108, 97, 115, 115, 39, 47, 83, 99, 114, 105, 112, 116, 47, 69, 110, 103, 105, 110, 101, 46, 65, 99, 116, 111, 114, 39>>,
  <<47, 83, 99, 114, 105, 112, 116, 47, 69, 110, 103, 105, 110, 101, 46, 68, 101, 102, 97, 117, 108, 116, 95, 95, 65, 99, 116, 111, 114>>,
  <<47, 83, 99, 114, 105, 112, 116, 47, 67, 111, 114, 101, 85, 79, 98, 106, 101, 99, 116>>,
  <<67, 111, 114, 101, 85, 79, 98, 106, 101, 99, 116>>,
  <<47, 83, 99, 114, 105, 112, 116, 47, 69, 110, 103, 105, 110, 101>>,
  <<69, 110, 103, 105, 110, 101>>,
  <<101, 110>>,
  <<101, 110, 45, 85, 83>>,
  <<122, 104, 45, 72, 97, 110, 115, 45, 67, 78>>,
  <<100, 101, 95, 68, 69>>,
  <<85, 83, 68>>,
  <<69, 85, 82>>,
  <<85, 84, 67>>,
  <<71, 77, 84>>,
  <<69, 116, 99, 47, 85, 110, 107, 110, 111, 119, 110>>,
  <<69, 117, 114, 111, 112, 101, 47, 66, 101, 114, 108, 105, 110>>,
  <<43, 48, 49, 58, 48, 48>>,
  <<48, 48, 48, 48, 48, 48, 48, 48, 45, 48, 48, 48, 48, 45, 48, 48, 48, 48, 45, 48, 48, 48, 48, 45, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>,
  <<123, 48, 48, 48, 48, 48, 48, 48, 48, 45, 48, 48, 48, 48, 45, 48, 48, 48, 48, 45, 48, 48, 48, 48, 45, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 125>>,
  <<48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>,
  <<49, 49, 49, 49, 49, 49, 49, 49, 45, 50, 50, 50, 50, 45, 51, 51, 51, 51, 45, 52, 52, 52, 52, 45, 53, 53, 53, 53, 53, 53, 53, 53, 53, 53, 53, 53>>,
  <<91, 93>>,
  <<91, 110, 117, 108, 108, 93>>,
  <<123, 34, 97, 34, 58, 49, 125>>,
  <<34, 97, 34>>,
  <<60, 97, 62>>,
  <<38, 97, 109, 112, 59>>,
  <<97, 92, 98>>,
  <<67, 58, 92, 120>>,
  <<126, 47, 120>>,
  <<50, 48, 50, 52, 45, 48, 49, 45, 51, 49>>,
  <<49, 50, 58, 51, 52, 58, 53, 54>>,
  <<50, 48, 50, 52, 45, 48, 49, 45, 51, 49, 84, 49, 50, 58, 51, 52, 58, 53, 54, 90>>,
  <<49, 44, 48, 48, 48>>,
  <<53, 48, 37>>,
  <<36, 53>>,
  <<97, 61, 98, 59, 99, 61, 100>>,
  <<78, 83, 76, 79, 67, 84, 69, 88, 84, 40, 34, 97, 34, 44, 34, 98, 34, 44, 34, 99, 34, 41>>,
  <<76, 79, 67, 84, 65, 66, 76, 69, 40, 34, 97, 34, 44, 34, 98, 34, 41>>,
  <<73, 78, 86, 84, 69, 88, 84, 40, 34, 97, 34, 41>>,
  <<96, 123, 48, 125>>,
  <<123, 97, 125, 123, 98, 125>>,
  <<123, 123>>,
  <<125, 125>>,
  <<40, 88, 61, 49, 44, 89, 61, 50, 41>>,
  <<88, 61, 49, 46, 48, 32, 89, 61, 50, 46, 48, 32, 90, 61, 51, 46, 48>>,
  <<86, 101, 114, 115, 105, 111, 110, 50>>,
  <<86, 101, 114, 115, 105, 111, 110, 51>>,
  <<80, 97, 108, 119, 111, 114, 108, 100>>,
  <<80, 108, 90>>,
  <<90, 108, 105, 98>>,
  <<83, 65, 86, 69>>,
  <<77, 65, 88>>,
  <<67, 111, 117, 110, 116>>,
  <<78, 117, 109>>,
  <<83, 105, 122, 101>>,
  <<73, 110, 100, 101, 120>>,
  <<88>>,
  <<89>>,
  <<90>>,
  <<87>>,
  <<82>>,
  <<71>>,
  <<66>>,
  <<120>>,
  <<121>>,
  <<112, 105, 116, 99, 104>>,
  <<116, 105, 99, 107, 115>>,
  <<114, 97, 119>>,
  <<112, 114, 111, 112, 101, 114, 116, 121, 95, 110, 97, 109, 101>>,
  <<112, 114, 111, 112, 101, 114, 116, 105, 101, 115>>,
  <<115, 116, 114, 117, 99, 116, 115>>,
  <<102, 105, 101, 108, 100, 95, 110, 97, 109, 101>>,
  <<78, 97, 110>>,
  <<73, 110, 102, 105, 110, 105, 116, 121>>,
  <<45, 105, 110, 102>>,
  <<117, 110, 100, 101, 102, 105, 110, 101, 100>>,
  <<78, 111, 110, 101, 58, 58, 78, 111, 110, 101>>,
  <<78, 79, 78, 69, 95, 48>>,
  <<72, 101, 114, 111, 32, 78, 111, 110, 101>>,
  <<78, 111, 110, 101, 80, 114, 111, 112, 101, 114, 116, 121>>,
  <<83, 116, 114, 117, 99, 116, 80, 114, 111, 112, 101, 114, 116, 121, 46>>,
  <<75, 101, 121, 46, 83, 116, 114, 117, 99, 116, 80, 114, 111, 112, 101, 114, 116, 121>>,
  <<77, 97, 112, 80, 114, 111, 112, 101, 114, 116, 121, 46, 75, 101, 121, 46, 83, 116, 114, 117, 99, 116, 80, 114, 111, 112, 101, 114, 116, 121>>
>>
=============================================================================
