------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Numbers which code could take for special: small ones, powers of two    *)
(* and ten and their neighbours, angles, colours, tick counts, magic       *)
(* numbers, the limits of every width, infinities, not-a-numbers.          *)
(***************************************************************************)
NumF4 == <<<<0, 0, 0, 0>>, <<0, 0, 0, 128>>, <<0, 0, 0, 62>>, <<0, 0, 0, 190>>, <<0, 0, 128, 62>>, <<0, 0, 128, 190>>, <<0, 0, 0, 63>>, <<0, 0, 0, 191>>, <<0, 0, 64, 63>>,
  <<0, 0, 64, 191>>, <<0, 0, 128, 63>>, <<0, 0, 128, 191>>, <<0, 0, 192, 63>>, <<0, 0, 192, 191>>, <<0, 0, 0, 64>>, <<0, 0, 0, 192>>, <<0, 0, 64, 64>>, <<0, 0, 64, 192>>,
  <<0, 0, 128, 64>>, <<0, 0, 128, 192>>, <<0, 0, 160, 64>>, <<0, 0, 160, 192>>, <<0, 0, 192, 64>>, <<0, 0, 192, 192>>, <<0, 0, 224, 64>>, <<0, 0, 224, 192>>, <<0, 0, 0, 65>>,
  <<0, 0, 0, 193>>, <<0, 0, 16, 65>>, <<0, 0, 16, 193>>, <<0, 0, 32, 65>>, <<0, 0, 32, 193>>, <<0, 0, 64, 65>>, <<0, 0, 64, 193>>, <<0, 0, 112, 65>>, <<0, 0, 112, 193>>,
  <<0, 0, 128, 65>>, <<0, 0, 128, 193>>, <<0, 0, 192, 65>>, <<0, 0, 192, 193>>, <<0, 0, 240, 65>>, <<0, 0, 240, 193>>, <<0, 0, 0, 66>>, <<0, 0, 0, 194>>, <<0, 0, 52, 66>>,
  <<0, 0, 52, 194>>, <<0, 0, 112, 66>>, <<0, 0, 112, 194>>, <<0, 0, 124, 66>>, <<0, 0, 124, 194>>, <<0, 0, 128, 66>>, <<0, 0, 128, 194>>, <<0, 0, 180, 66>>, <<0, 0, 180, 194>>,
  <<0, 0, 198, 66>>, <<0, 0, 198, 194>>, <<0, 0, 200, 66>>, <<0, 0, 200, 194>>, <<0, 0, 240, 66>>, <<0, 0, 240, 194>>, <<0, 0, 254, 66>>, <<0, 0, 254, 194>>, <<0, 0, 0, 67>>,
  <<0, 0, 0, 195>>, <<0, 0, 7, 67>>, <<0, 0, 7, 195>>, <<0, 0, 52, 67>>, <<0, 0, 52, 195>>, <<0, 0, 97, 67>>, <<0, 0, 97, 195>>, <<0, 0, 126, 67>>, <<0, 0, 126, 195>>,
  <<0, 0, 127, 67>>, <<0, 0, 127, 195>>, <<0, 0, 128, 67>>, <<0, 0, 128, 195>>, <<0, 0, 135, 67>>, <<0, 0, 135, 195>>, <<0, 128, 157, 67>>, <<0, 128, 157, 195>>,
  <<0, 128, 179, 67>>, <<0, 128, 179, 195>>, <<0, 0, 180, 67>>, <<0, 0, 180, 195>>, <<0, 128, 180, 67>>, <<0, 128, 180, 195>>, <<0, 128, 182, 67>>, <<0, 128, 182, 195>>,
  <<0, 0, 200, 67>>, <<0, 0, 200, 195>>, <<0, 0, 225, 67>>, <<0, 0, 225, 195>>, <<0, 0, 250, 67>>, <<0, 0, 250, 195>>, <<0, 0, 7, 68>>, <<0, 0, 7, 196>>, <<0, 0, 52, 68>>,
  <<0, 0, 52, 196>>, <<0, 192, 121, 68>>, <<0, 192, 121, 196>>, <<0, 0, 122, 68>>, <<0, 0, 122, 196>>, <<0, 0, 128, 68>>, <<0, 0, 128, 196>>, <<0, 0, 97, 69>>, <<0, 0, 97, 197>>,
  <<0, 0, 128, 69>>, <<0, 0, 128, 197>>, <<0, 64, 28, 70>>, <<0, 64, 28, 198>>, <<0, 254, 255, 70>>, <<0, 254, 255, 198>>, <<0, 0, 0, 71>>, <<0, 0, 0, 199>>, <<0, 255, 127, 71>>,
  <<0, 255, 127, 199>>, <<0, 0, 128, 71>>, <<0, 0, 128, 199>>, <<0, 192, 168, 71>>, <<0, 192, 168, 199>>, <<0, 80, 195, 71>>, <<0, 80, 195, 199>>, <<0, 36, 116, 73>>,
  <<0, 36, 116, 201>>, <<255, 255, 127, 75>>, <<255, 255, 127, 203>>, <<0, 0, 128, 75>>, <<0, 0, 128, 203>>, <<0, 0, 0, 79>>, <<0, 0, 0, 207>>, <<0, 0, 128, 79>>,
  <<0, 0, 128, 207>>, <<0, 0, 0, 90>>, <<0, 0, 0, 218>>, <<0, 0, 0, 95>>, <<0, 0, 0, 223>>, <<0, 0, 128, 95>>, <<0, 0, 128, 223>>, <<219, 15, 73, 64>>, <<219, 15, 73, 192>>,
  <<219, 15, 201, 64>>, <<219, 15, 201, 192>>, <<219, 15, 201, 63>>, <<219, 15, 201, 191>>, <<219, 15, 73, 63>>, <<219, 15, 73, 191>>, <<53, 250, 142, 60>>, <<53, 250, 142, 188>>,
  <<225, 46, 101, 66>>, <<225, 46, 101, 194>>, <<84, 248, 45, 64>>, <<84, 248, 45, 192>>, <<243, 4, 181, 63>>, <<243, 4, 181, 191>>, <<243, 4, 53, 63>>, <<243, 4, 53, 191>>,
  <<171, 170, 170, 62>>, <<171, 170, 170, 190>>, <<171, 170, 42, 63>>, <<171, 170, 42, 191>>, <<205, 204, 204, 61>>, <<205, 204, 204, 189>>, <<205, 204, 76, 62>>,
  <<205, 204, 76, 190>>, <<154, 153, 153, 62>>, <<154, 153, 153, 190>>, <<205, 204, 204, 62>>, <<205, 204, 204, 190>>, <<154, 153, 25, 63>>, <<154, 153, 25, 191>>,
  <<51, 51, 51, 63>>, <<51, 51, 51, 191>>, <<205, 204, 76, 63>>, <<205, 204, 76, 191>>, <<102, 102, 102, 63>>, <<102, 102, 102, 191>>, <<51, 51, 115, 63>>, <<51, 51, 115, 191>>,
  <<164, 112, 125, 63>>, <<164, 112, 125, 191>>, <<119, 190, 127, 63>>, <<119, 190, 127, 191>>, <<114, 249, 127, 63>>, <<114, 249, 127, 191>>, <<205, 204, 140, 63>>,
  <<205, 204, 140, 191>>, <<129, 128, 128, 59>>, <<129, 128, 128, 187>>, <<129, 128, 0, 63>>, <<129, 128, 0, 191>>, <<255, 254, 126, 63>>, <<255, 254, 126, 191>>,
  <<10, 215, 35, 60>>, <<10, 215, 35, 188>>, <<111, 18, 131, 58>>, <<111, 18, 131, 186>>, <<23, 183, 209, 56>>, <<23, 183, 209, 184>>, <<172, 197, 39, 55>>, <<172, 197, 39, 183>>,
  <<189, 55, 134, 53>>, <<189, 55, 134, 181>>, <<149, 191, 214, 51>>, <<149, 191, 214, 179>>, <<119, 204, 43, 50>>, <<119, 204, 43, 178>>, <<95, 112, 137, 48>>,
  <<95, 112, 137, 176>>, <<255, 230, 219, 46>>, <<255, 230, 219, 174>>, <<204, 188, 140, 43>>, <<204, 188, 140, 171>>, <<8, 229, 60, 30>>, <<8, 229, 60, 158>>,
  <<96, 66, 162, 13>>, <<96, 66, 162, 141>>, <<238, 227, 108, 0>>, <<238, 227, 108, 128>>, <<249, 2, 21, 80>>, <<249, 2, 21, 208>>, <<236, 120, 173, 96>>, <<236, 120, 173, 224>>,
  <<202, 242, 73, 113>>, <<202, 242, 73, 241>>, <<153, 118, 150, 126>>, <<153, 118, 150, 254>>, <<0, 0, 0, 52>>, <<0, 0, 0, 180>>, <<0, 0, 128, 51>>, <<0, 0, 128, 179>>,
  <<0, 0, 128, 37>>, <<0, 0, 128, 165>>, <<0, 0, 128, 0>>, <<0, 0, 128, 128>>, <<0, 0, 64, 0>>, <<0, 0, 64, 128>>, <<1, 0, 0, 0>>, <<1, 0, 0, 128>>, <<255, 255, 127, 63>>,
  <<1, 0, 128, 63>>, <<255, 255, 127, 127>>, <<255, 255, 127, 255>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>, <<0, 0, 192, 127>>, <<0, 0, 192, 255>>, <<1, 0, 128, 127>>,
  <<255, 255, 255, 127>>, <<255, 255, 255, 255>>, <<255, 255, 127, 0>>, <<1, 0, 128, 0>>, <<255, 255, 51, 67>>, <<255, 255, 179, 67>>, <<1, 0, 180, 67>> >>
NumF8 == <<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 0, 0, 192, 63>>, <<0, 0, 0, 0, 0, 0, 192, 191>>, <<0, 0, 0, 0, 0, 0, 208, 63>>,
  <<0, 0, 0, 0, 0, 0, 208, 191>>, <<0, 0, 0, 0, 0, 0, 224, 63>>, <<0, 0, 0, 0, 0, 0, 224, 191>>, <<0, 0, 0, 0, 0, 0, 232, 63>>, <<0, 0, 0, 0, 0, 0, 232, 191>>,
  <<0, 0, 0, 0, 0, 0, 240, 63>>, <<0, 0, 0, 0, 0, 0, 240, 191>>, <<0, 0, 0, 0, 0, 0, 248, 63>>, <<0, 0, 0, 0, 0, 0, 248, 191>>, <<0, 0, 0, 0, 0, 0, 0, 64>>,
  <<0, 0, 0, 0, 0, 0, 0, 192>>, <<0, 0, 0, 0, 0, 0, 8, 64>>, <<0, 0, 0, 0, 0, 0, 8, 192>>, <<0, 0, 0, 0, 0, 0, 16, 64>>, <<0, 0, 0, 0, 0, 0, 16, 192>>,
  <<0, 0, 0, 0, 0, 0, 20, 64>>, <<0, 0, 0, 0, 0, 0, 20, 192>>, <<0, 0, 0, 0, 0, 0, 24, 64>>, <<0, 0, 0, 0, 0, 0, 24, 192>>, <<0, 0, 0, 0, 0, 0, 28, 64>>,
  <<0, 0, 0, 0, 0, 0, 28, 192>>, <<0, 0, 0, 0, 0, 0, 32, 64>>, <<0, 0, 0, 0, 0, 0, 32, 192>>, <<0, 0, 0, 0, 0, 0, 34, 64>>, <<0, 0, 0, 0, 0, 0, 34, 192>>,
  <<0, 0, 0, 0, 0, 0, 36, 64>>, <<0, 0, 0, 0, 0, 0, 36, 192>>, <<0, 0, 0, 0, 0, 0, 40, 64>>, <<0, 0, 0, 0, 0, 0, 40, 192>>, <<0, 0, 0, 0, 0, 0, 46, 64>>,
  <<0, 0, 0, 0, 0, 0, 46, 192>>, <<0, 0, 0, 0, 0, 0, 48, 64>>, <<0, 0, 0, 0, 0, 0, 48, 192>>, <<0, 0, 0, 0, 0, 0, 56, 64>>, <<0, 0, 0, 0, 0, 0, 56, 192>>,
  <<0, 0, 0, 0, 0, 0, 62, 64>>, <<0, 0, 0, 0, 0, 0, 62, 192>>, <<0, 0, 0, 0, 0, 0, 64, 64>>, <<0, 0, 0, 0, 0, 0, 64, 192>>, <<0, 0, 0, 0, 0, 128, 70, 64>>,
  <<0, 0, 0, 0, 0, 128, 70, 192>>, <<0, 0, 0, 0, 0, 0, 78, 64>>, <<0, 0, 0, 0, 0, 0, 78, 192>>, <<0, 0, 0, 0, 0, 128, 79, 64>>, <<0, 0, 0, 0, 0, 128, 79, 192>>,
  <<0, 0, 0, 0, 0, 0, 80, 64>>, <<0, 0, 0, 0, 0, 0, 80, 192>>, <<0, 0, 0, 0, 0, 128, 86, 64>>, <<0, 0, 0, 0, 0, 128, 86, 192>>, <<0, 0, 0, 0, 0, 192, 88, 64>>,
  <<0, 0, 0, 0, 0, 192, 88, 192>>, <<0, 0, 0, 0, 0, 0, 89, 64>>, <<0, 0, 0, 0, 0, 0, 89, 192>>, <<0, 0, 0, 0, 0, 0, 94, 64>>, <<0, 0, 0, 0, 0, 0, 94, 192>>,
  <<0, 0, 0, 0, 0, 192, 95, 64>>, <<0, 0, 0, 0, 0, 192, 95, 192>>, <<0, 0, 0, 0, 0, 0, 96, 64>>, <<0, 0, 0, 0, 0, 0, 96, 192>>, <<0, 0, 0, 0, 0, 224, 96, 64>>,
  <<0, 0, 0, 0, 0, 224, 96, 192>>, <<0, 0, 0, 0, 0, 128, 102, 64>>, <<0, 0, 0, 0, 0, 128, 102, 192>>, <<0, 0, 0, 0, 0, 32, 108, 64>>, <<0, 0, 0, 0, 0, 32, 108, 192>>,
  <<0, 0, 0, 0, 0, 192, 111, 64>>, <<0, 0, 0, 0, 0, 192, 111, 192>>, <<0, 0, 0, 0, 0, 224, 111, 64>>, <<0, 0, 0, 0, 0, 224, 111, 192>>, <<0, 0, 0, 0, 0, 0, 112, 64>>,
  <<0, 0, 0, 0, 0, 0, 112, 192>>, <<0, 0, 0, 0, 0, 224, 112, 64>>, <<0, 0, 0, 0, 0, 224, 112, 192>>, <<0, 0, 0, 0, 0, 176, 115, 64>>, <<0, 0, 0, 0, 0, 176, 115, 192>>,
  <<0, 0, 0, 0, 0, 112, 118, 64>>, <<0, 0, 0, 0, 0, 112, 118, 192>>, <<0, 0, 0, 0, 0, 128, 118, 64>>, <<0, 0, 0, 0, 0, 128, 118, 192>>, <<0, 0, 0, 0, 0, 144, 118, 64>>,
  <<0, 0, 0, 0, 0, 144, 118, 192>>, <<0, 0, 0, 0, 0, 208, 118, 64>>, <<0, 0, 0, 0, 0, 208, 118, 192>>, <<0, 0, 0, 0, 0, 0, 121, 64>>, <<0, 0, 0, 0, 0, 0, 121, 192>>,
  <<0, 0, 0, 0, 0, 32, 124, 64>>, <<0, 0, 0, 0, 0, 32, 124, 192>>, <<0, 0, 0, 0, 0, 64, 127, 64>>, <<0, 0, 0, 0, 0, 64, 127, 192>>, <<0, 0, 0, 0, 0, 224, 128, 64>>,
  <<0, 0, 0, 0, 0, 224, 128, 192>>, <<0, 0, 0, 0, 0, 128, 134, 64>>, <<0, 0, 0, 0, 0, 128, 134, 192>>, <<0, 0, 0, 0, 0, 56, 143, 64>>, <<0, 0, 0, 0, 0, 56, 143, 192>>,
  <<0, 0, 0, 0, 0, 64, 143, 64>>, <<0, 0, 0, 0, 0, 64, 143, 192>>, <<0, 0, 0, 0, 0, 0, 144, 64>>, <<0, 0, 0, 0, 0, 0, 144, 192>>, <<0, 0, 0, 0, 0, 32, 172, 64>>,
  <<0, 0, 0, 0, 0, 32, 172, 192>>, <<0, 0, 0, 0, 0, 0, 176, 64>>, <<0, 0, 0, 0, 0, 0, 176, 192>>, <<0, 0, 0, 0, 0, 136, 195, 64>>, <<0, 0, 0, 0, 0, 136, 195, 192>>,
  <<0, 0, 0, 0, 192, 255, 223, 64>>, <<0, 0, 0, 0, 192, 255, 223, 192>>, <<0, 0, 0, 0, 0, 0, 224, 64>>, <<0, 0, 0, 0, 0, 0, 224, 192>>, <<0, 0, 0, 0, 224, 255, 239, 64>>,
  <<0, 0, 0, 0, 224, 255, 239, 192>>, <<0, 0, 0, 0, 0, 0, 240, 64>>, <<0, 0, 0, 0, 0, 0, 240, 192>>, <<0, 0, 0, 0, 0, 24, 245, 64>>, <<0, 0, 0, 0, 0, 24, 245, 192>>,
  <<0, 0, 0, 0, 0, 106, 248, 64>>, <<0, 0, 0, 0, 0, 106, 248, 192>>, <<0, 0, 0, 0, 128, 132, 46, 65>>, <<0, 0, 0, 0, 128, 132, 46, 193>>, <<0, 0, 0, 224, 255, 255, 111, 65>>,
  <<0, 0, 0, 224, 255, 255, 111, 193>>, <<0, 0, 0, 0, 0, 0, 112, 65>>, <<0, 0, 0, 0, 0, 0, 112, 193>>, <<0, 0, 0, 16, 0, 0, 112, 65>>, <<0, 0, 0, 16, 0, 0, 112, 193>>,
  <<0, 0, 192, 255, 255, 255, 223, 65>>, <<0, 0, 192, 255, 255, 255, 223, 193>>, <<0, 0, 0, 0, 0, 0, 224, 65>>, <<0, 0, 0, 0, 0, 0, 224, 193>>,
  <<0, 0, 224, 255, 255, 255, 239, 65>>, <<0, 0, 224, 255, 255, 255, 239, 193>>, <<0, 0, 0, 0, 0, 0, 240, 65>>, <<0, 0, 0, 0, 0, 0, 240, 193>>,
  <<255, 255, 255, 255, 255, 255, 63, 67>>, <<255, 255, 255, 255, 255, 255, 63, 195>>, <<0, 0, 0, 0, 0, 0, 64, 67>>, <<0, 0, 0, 0, 0, 0, 64, 195>>, <<0, 0, 0, 0, 0, 0, 224, 67>>,
  <<0, 0, 0, 0, 0, 0, 224, 195>>, <<0, 0, 0, 0, 0, 0, 240, 67>>, <<0, 0, 0, 0, 0, 0, 240, 195>>, <<24, 45, 68, 84, 251, 33, 9, 64>>, <<24, 45, 68, 84, 251, 33, 9, 192>>,
  <<24, 45, 68, 84, 251, 33, 25, 64>>, <<24, 45, 68, 84, 251, 33, 25, 192>>, <<24, 45, 68, 84, 251, 33, 249, 63>>, <<24, 45, 68, 84, 251, 33, 249, 191>>,
  <<24, 45, 68, 84, 251, 33, 233, 63>>, <<24, 45, 68, 84, 251, 33, 233, 191>>, <<57, 157, 82, 162, 70, 223, 145, 63>>, <<57, 157, 82, 162, 70, 223, 145, 191>>,
  <<248, 193, 99, 26, 220, 165, 76, 64>>, <<248, 193, 99, 26, 220, 165, 76, 192>>, <<105, 87, 20, 139, 10, 191, 5, 64>>, <<105, 87, 20, 139, 10, 191, 5, 192>>,
  <<205, 59, 127, 102, 158, 160, 246, 63>>, <<205, 59, 127, 102, 158, 160, 246, 191>>, <<205, 59, 127, 102, 158, 160, 230, 63>>, <<205, 59, 127, 102, 158, 160, 230, 191>>,
  <<85, 85, 85, 85, 85, 85, 213, 63>>, <<85, 85, 85, 85, 85, 85, 213, 191>>, <<85, 85, 85, 85, 85, 85, 229, 63>>, <<85, 85, 85, 85, 85, 85, 229, 191>>,
  <<154, 153, 153, 153, 153, 153, 185, 63>>, <<154, 153, 153, 153, 153, 153, 185, 191>>, <<154, 153, 153, 153, 153, 153, 201, 63>>, <<154, 153, 153, 153, 153, 153, 201, 191>>,
  <<51, 51, 51, 51, 51, 51, 211, 63>>, <<51, 51, 51, 51, 51, 51, 211, 191>>, <<154, 153, 153, 153, 153, 153, 217, 63>>, <<154, 153, 153, 153, 153, 153, 217, 191>>,
  <<51, 51, 51, 51, 51, 51, 227, 63>>, <<51, 51, 51, 51, 51, 51, 227, 191>>, <<102, 102, 102, 102, 102, 102, 230, 63>>, <<102, 102, 102, 102, 102, 102, 230, 191>>,
  <<154, 153, 153, 153, 153, 153, 233, 63>>, <<154, 153, 153, 153, 153, 153, 233, 191>>, <<205, 204, 204, 204, 204, 204, 236, 63>>, <<205, 204, 204, 204, 204, 204, 236, 191>>,
  <<102, 102, 102, 102, 102, 102, 238, 63>>, <<102, 102, 102, 102, 102, 102, 238, 191>>, <<174, 71, 225, 122, 20, 174, 239, 63>>, <<174, 71, 225, 122, 20, 174, 239, 191>>,
  <<43, 135, 22, 217, 206, 247, 239, 63>>, <<43, 135, 22, 217, 206, 247, 239, 191>>, <<30, 167, 232, 72, 46, 255, 239, 63>>, <<30, 167, 232, 72, 46, 255, 239, 191>>,
  <<154, 153, 153, 153, 153, 153, 241, 63>>, <<154, 153, 153, 153, 153, 153, 241, 191>>, <<16, 16, 16, 16, 16, 16, 112, 63>>, <<16, 16, 16, 16, 16, 16, 112, 191>>,
  <<16, 16, 16, 16, 16, 16, 224, 63>>, <<16, 16, 16, 16, 16, 16, 224, 191>>, <<224, 223, 223, 223, 223, 223, 239, 63>>, <<224, 223, 223, 223, 223, 223, 239, 191>>,
  <<123, 20, 174, 71, 225, 122, 132, 63>>, <<123, 20, 174, 71, 225, 122, 132, 191>>, <<252, 169, 241, 210, 77, 98, 80, 63>>, <<252, 169, 241, 210, 77, 98, 80, 191>>,
  <<45, 67, 28, 235, 226, 54, 26, 63>>, <<45, 67, 28, 235, 226, 54, 26, 191>>, <<241, 104, 227, 136, 181, 248, 228, 62>>, <<241, 104, 227, 136, 181, 248, 228, 190>>,
  <<141, 237, 181, 160, 247, 198, 176, 62>>, <<141, 237, 181, 160, 247, 198, 176, 190>>, <<72, 175, 188, 154, 242, 215, 122, 62>>, <<72, 175, 188, 154, 242, 215, 122, 190>>,
  <<58, 140, 48, 226, 142, 121, 69, 62>>, <<58, 140, 48, 226, 142, 121, 69, 190>>, <<149, 214, 38, 232, 11, 46, 17, 62>>, <<149, 214, 38, 232, 11, 46, 17, 190>>,
  <<187, 189, 215, 217, 223, 124, 219, 61>>, <<187, 189, 215, 217, 223, 124, 219, 189>>, <<17, 234, 45, 129, 153, 151, 113, 61>>, <<17, 234, 45, 129, 153, 151, 113, 189>>,
  <<35, 66, 146, 12, 161, 156, 199, 59>>, <<35, 66, 146, 12, 161, 156, 199, 187>>, <<160, 194, 235, 254, 75, 72, 180, 57>>, <<160, 194, 235, 254, 75, 72, 180, 185>>,
  <<228, 120, 170, 157, 251, 56, 11, 56>>, <<228, 120, 170, 157, 251, 56, 11, 184>>, <<0, 0, 0, 32, 95, 160, 2, 66>>, <<0, 0, 0, 32, 95, 160, 2, 194>>,
  <<64, 140, 181, 120, 29, 175, 21, 68>>, <<64, 140, 181, 120, 29, 175, 21, 196>>, <<234, 140, 160, 57, 89, 62, 41, 70>>, <<234, 140, 160, 57, 89, 62, 41, 198>>,
  <<177, 161, 22, 42, 211, 206, 210, 71>>, <<177, 161, 22, 42, 211, 206, 210, 199>>, <<0, 0, 0, 0, 0, 0, 128, 62>>, <<0, 0, 0, 0, 0, 0, 128, 190>>, <<0, 0, 0, 0, 0, 0, 112, 62>>,
  <<0, 0, 0, 0, 0, 0, 112, 190>>, <<0, 0, 0, 0, 0, 0, 176, 60>>, <<0, 0, 0, 0, 0, 0, 176, 188>>, <<0, 0, 0, 0, 0, 0, 16, 56>>, <<0, 0, 0, 0, 0, 0, 16, 184>>,
  <<0, 0, 0, 0, 0, 0, 0, 56>>, <<0, 0, 0, 0, 0, 0, 0, 184>>, <<0, 0, 0, 0, 0, 0, 160, 54>>, <<0, 0, 0, 0, 0, 0, 160, 182>>, <<156, 117, 0, 136, 60, 228, 55, 126>>,
  <<156, 117, 0, 136, 60, 228, 55, 254>>, <<89, 243, 248, 194, 31, 110, 165, 1>>, <<0, 0, 0, 0, 0, 0, 16, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 224, 127>>,
  <<255, 255, 255, 255, 255, 255, 239, 63>>, <<1, 0, 0, 0, 0, 0, 240, 63>>, <<255, 255, 255, 255, 255, 255, 239, 127>>, <<255, 255, 255, 255, 255, 255, 239, 255>>,
  <<0, 0, 0, 0, 0, 0, 240, 127>>, <<0, 0, 0, 0, 0, 0, 240, 255>>, <<0, 0, 0, 0, 0, 0, 248, 127>>, <<0, 0, 0, 0, 0, 0, 248, 255>>, <<1, 0, 0, 0, 0, 0, 240, 127>>,
  <<255, 255, 255, 255, 255, 255, 255, 127>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<255, 255, 255, 255, 255, 255, 15, 0>>, <<1, 0, 0, 0, 0, 0, 16, 0>>,
  <<255, 255, 255, 255, 255, 127, 118, 64>>, <<1, 0, 0, 0, 0, 128, 118, 64>>, <<0, 0, 0, 160, 153, 153, 185, 63>> >>
NumI1 == <<<<0>>, <<1>>, <<255>>, <<2>>, <<254>>, <<3>>, <<253>>, <<4>>, <<252>>, <<5>>, <<251>>, <<6>>, <<250>>, <<7>>, <<249>>, <<8>>, <<248>>, <<9>>, <<247>>, <<10>>, <<246>>,
  <<11>>, <<245>>, <<12>>, <<244>>, <<13>>, <<243>>, <<14>>, <<242>>, <<15>>, <<241>>, <<16>>, <<240>>, <<17>>, <<239>>, <<18>>, <<238>>, <<19>>, <<237>>, <<20>>, <<236>>, <<21>>,
  <<235>>, <<22>>, <<234>>, <<23>>, <<233>>, <<24>>, <<232>>, <<25>>, <<231>>, <<26>>, <<230>>, <<27>>, <<229>>, <<28>>, <<228>>, <<29>>, <<227>>, <<30>>, <<226>>, <<31>>,
  <<225>>, <<32>>, <<224>>, <<33>>, <<223>>, <<36>>, <<220>>, <<42>>, <<214>>, <<48>>, <<208>>, <<50>>, <<206>>, <<60>>, <<196>>, <<63>>, <<193>>, <<64>>, <<192>>, <<65>>,
  <<191>>, <<90>>, <<166>>, <<91>>, <<165>>, <<97>>, <<159>>, <<99>>, <<157>>, <<100>>, <<156>>, <<101>>, <<155>>, <<126>>, <<130>>, <<127>>, <<129>>, <<128>>, <<180>>, <<200>> >>
NumI2 == <<<<0, 0>>, <<1, 0>>, <<255, 255>>, <<2, 0>>, <<254, 255>>, <<3, 0>>, <<253, 255>>, <<4, 0>>, <<252, 255>>, <<5, 0>>, <<251, 255>>, <<6, 0>>, <<250, 255>>, <<7, 0>>,
  <<249, 255>>, <<8, 0>>, <<248, 255>>, <<9, 0>>, <<247, 255>>, <<10, 0>>, <<246, 255>>, <<11, 0>>, <<245, 255>>, <<12, 0>>, <<244, 255>>, <<13, 0>>, <<243, 255>>, <<14, 0>>,
  <<242, 255>>, <<15, 0>>, <<241, 255>>, <<16, 0>>, <<240, 255>>, <<17, 0>>, <<239, 255>>, <<18, 0>>, <<238, 255>>, <<19, 0>>, <<237, 255>>, <<20, 0>>, <<236, 255>>, <<21, 0>>,
  <<235, 255>>, <<22, 0>>, <<234, 255>>, <<23, 0>>, <<233, 255>>, <<24, 0>>, <<232, 255>>, <<25, 0>>, <<231, 255>>, <<26, 0>>, <<230, 255>>, <<27, 0>>, <<229, 255>>, <<28, 0>>,
  <<228, 255>>, <<29, 0>>, <<227, 255>>, <<30, 0>>, <<226, 255>>, <<31, 0>>, <<225, 255>>, <<32, 0>>, <<224, 255>>, <<33, 0>>, <<223, 255>>, <<36, 0>>, <<220, 255>>, <<42, 0>>,
  <<214, 255>>, <<48, 0>>, <<208, 255>>, <<50, 0>>, <<206, 255>>, <<60, 0>>, <<196, 255>>, <<63, 0>>, <<193, 255>>, <<64, 0>>, <<192, 255>>, <<65, 0>>, <<191, 255>>, <<90, 0>>,
  <<166, 255>>, <<91, 0>>, <<165, 255>>, <<97, 0>>, <<159, 255>>, <<99, 0>>, <<157, 255>>, <<100, 0>>, <<156, 255>>, <<101, 0>>, <<155, 255>>, <<126, 0>>, <<130, 255>>,
  <<127, 0>>, <<129, 255>>, <<128, 0>>, <<128, 255>>, <<129, 0>>, <<127, 255>>, <<180, 0>>, <<76, 255>>, <<200, 0>>, <<56, 255>>, <<254, 0>>, <<2, 255>>, <<255, 0>>, <<1, 255>>,
  <<0, 1>>, <<0, 255>>, <<1, 1>>, <<255, 254>>, <<44, 1>>, <<212, 254>>, <<104, 1>>, <<152, 254>>, <<109, 1>>, <<147, 254>>, <<255, 1>>, <<1, 254>>, <<0, 2>>, <<0, 254>>,
  <<1, 2>>, <<255, 253>>, <<231, 3>>, <<25, 252>>, <<232, 3>>, <<24, 252>>, <<233, 3>>, <<23, 252>>, <<255, 3>>, <<1, 252>>, <<0, 4>>, <<0, 252>>, <<1, 4>>, <<255, 251>>,
  <<178, 7>>, <<78, 248>>, <<208, 7>>, <<48, 248>>, <<255, 15>>, <<1, 240>>, <<0, 16>>, <<0, 240>>, <<0, 32>>, <<0, 224>>, <<15, 39>>, <<241, 216>>, <<16, 39>>, <<240, 216>>,
  <<255, 63>>, <<1, 192>>, <<0, 64>>, <<0, 192>>, <<255, 127>>, <<1, 128>>, <<0, 128>> >>
NumI4 == <<<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<2, 0, 0, 0>>, <<254, 255, 255, 255>>, <<3, 0, 0, 0>>, <<253, 255, 255, 255>>, <<4, 0, 0, 0>>,
  <<252, 255, 255, 255>>, <<5, 0, 0, 0>>, <<251, 255, 255, 255>>, <<6, 0, 0, 0>>, <<250, 255, 255, 255>>, <<7, 0, 0, 0>>, <<249, 255, 255, 255>>, <<8, 0, 0, 0>>,
  <<248, 255, 255, 255>>, <<9, 0, 0, 0>>, <<247, 255, 255, 255>>, <<10, 0, 0, 0>>, <<246, 255, 255, 255>>, <<11, 0, 0, 0>>, <<245, 255, 255, 255>>, <<12, 0, 0, 0>>,
  <<244, 255, 255, 255>>, <<13, 0, 0, 0>>, <<243, 255, 255, 255>>, <<14, 0, 0, 0>>, <<242, 255, 255, 255>>, <<15, 0, 0, 0>>, <<241, 255, 255, 255>>, <<16, 0, 0, 0>>,
  <<240, 255, 255, 255>>, <<17, 0, 0, 0>>, <<239, 255, 255, 255>>, <<18, 0, 0, 0>>, <<238, 255, 255, 255>>, <<19, 0, 0, 0>>, <<237, 255, 255, 255>>, <<20, 0, 0, 0>>,
  <<236, 255, 255, 255>>, <<21, 0, 0, 0>>, <<235, 255, 255, 255>>, <<22, 0, 0, 0>>, <<234, 255, 255, 255>>, <<23, 0, 0, 0>>, <<233, 255, 255, 255>>, <<24, 0, 0, 0>>,
  <<232, 255, 255, 255>>, <<25, 0, 0, 0>>, <<231, 255, 255, 255>>, <<26, 0, 0, 0>>, <<230, 255, 255, 255>>, <<27, 0, 0, 0>>, <<229, 255, 255, 255>>, <<28, 0, 0, 0>>,
  <<228, 255, 255, 255>>, <<29, 0, 0, 0>>, <<227, 255, 255, 255>>, <<30, 0, 0, 0>>, <<226, 255, 255, 255>>, <<31, 0, 0, 0>>, <<225, 255, 255, 255>>, <<32, 0, 0, 0>>,
  <<224, 255, 255, 255>>, <<33, 0, 0, 0>>, <<223, 255, 255, 255>>, <<36, 0, 0, 0>>, <<220, 255, 255, 255>>, <<42, 0, 0, 0>>, <<214, 255, 255, 255>>, <<48, 0, 0, 0>>,
  <<208, 255, 255, 255>>, <<50, 0, 0, 0>>, <<206, 255, 255, 255>>, <<60, 0, 0, 0>>, <<196, 255, 255, 255>>, <<63, 0, 0, 0>>, <<193, 255, 255, 255>>, <<64, 0, 0, 0>>,
  <<192, 255, 255, 255>>, <<65, 0, 0, 0>>, <<191, 255, 255, 255>>, <<90, 0, 0, 0>>, <<166, 255, 255, 255>>, <<91, 0, 0, 0>>, <<165, 255, 255, 255>>, <<97, 0, 0, 0>>,
  <<159, 255, 255, 255>>, <<99, 0, 0, 0>>, <<157, 255, 255, 255>>, <<100, 0, 0, 0>>, <<156, 255, 255, 255>>, <<101, 0, 0, 0>>, <<155, 255, 255, 255>>, <<126, 0, 0, 0>>,
  <<130, 255, 255, 255>>, <<127, 0, 0, 0>>, <<129, 255, 255, 255>>, <<128, 0, 0, 0>>, <<128, 255, 255, 255>>, <<129, 0, 0, 0>>, <<127, 255, 255, 255>>, <<180, 0, 0, 0>>,
  <<76, 255, 255, 255>>, <<200, 0, 0, 0>>, <<56, 255, 255, 255>>, <<254, 0, 0, 0>>, <<2, 255, 255, 255>>, <<255, 0, 0, 0>>, <<1, 255, 255, 255>>, <<0, 1, 0, 0>>,
  <<0, 255, 255, 255>>, <<1, 1, 0, 0>>, <<255, 254, 255, 255>>, <<44, 1, 0, 0>>, <<212, 254, 255, 255>>, <<104, 1, 0, 0>>, <<152, 254, 255, 255>>, <<109, 1, 0, 0>>,
  <<147, 254, 255, 255>>, <<255, 1, 0, 0>>, <<1, 254, 255, 255>>, <<0, 2, 0, 0>>, <<0, 254, 255, 255>>, <<1, 2, 0, 0>>, <<255, 253, 255, 255>>, <<231, 3, 0, 0>>,
  <<25, 252, 255, 255>>, <<232, 3, 0, 0>>, <<24, 252, 255, 255>>, <<233, 3, 0, 0>>, <<23, 252, 255, 255>>, <<255, 3, 0, 0>>, <<1, 252, 255, 255>>, <<0, 4, 0, 0>>,
  <<0, 252, 255, 255>>, <<1, 4, 0, 0>>, <<255, 251, 255, 255>>, <<178, 7, 0, 0>>, <<78, 248, 255, 255>>, <<208, 7, 0, 0>>, <<48, 248, 255, 255>>, <<255, 15, 0, 0>>,
  <<1, 240, 255, 255>>, <<0, 16, 0, 0>>, <<0, 240, 255, 255>>, <<0, 32, 0, 0>>, <<0, 224, 255, 255>>, <<15, 39, 0, 0>>, <<241, 216, 255, 255>>, <<16, 39, 0, 0>>,
  <<240, 216, 255, 255>>, <<255, 63, 0, 0>>, <<1, 192, 255, 255>>, <<0, 64, 0, 0>>, <<0, 192, 255, 255>>, <<255, 127, 0, 0>>, <<1, 128, 255, 255>>, <<0, 128, 0, 0>>,
  <<0, 128, 255, 255>>, <<1, 128, 0, 0>>, <<255, 127, 255, 255>>, <<254, 255, 0, 0>>, <<2, 0, 255, 255>>, <<255, 255, 0, 0>>, <<1, 0, 255, 255>>, <<0, 0, 1, 0>>,
  <<0, 0, 255, 255>>, <<1, 0, 1, 0>>, <<255, 255, 254, 255>>, <<159, 134, 1, 0>>, <<97, 121, 254, 255>>, <<160, 134, 1, 0>>, <<96, 121, 254, 255>>, <<0, 0, 2, 0>>,
  <<0, 0, 254, 255>>, <<64, 66, 15, 0>>, <<192, 189, 240, 255>>, <<0, 0, 16, 0>>, <<0, 0, 240, 255>>, <<255, 255, 255, 0>>, <<1, 0, 0, 255>>, <<0, 0, 0, 1>>, <<0, 0, 0, 255>>,
  <<1, 0, 0, 1>>, <<255, 255, 255, 254>>, <<65, 65, 65, 65>>, <<191, 190, 190, 190>>, <<71, 86, 65, 83>>, <<185, 169, 190, 172>>, <<120, 86, 52, 18>>, <<136, 169, 203, 237>>,
  <<255, 255, 255, 127>>, <<1, 0, 0, 128>>, <<0, 0, 0, 128>>, <<0, 225, 245, 5>>, <<0, 31, 10, 250>>, <<0, 202, 154, 59>>, <<0, 54, 101, 196>>, <<128, 150, 152, 0>>,
  <<128, 105, 103, 255>>, <<239, 190, 173, 222>>, <<204, 204, 204, 204>>, <<205, 205, 205, 205>>, <<254, 255, 255, 127>>, <<2, 0, 0, 128>> >>
NumI8 == <<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<2, 0, 0, 0, 0, 0, 0, 0>>,
  <<254, 255, 255, 255, 255, 255, 255, 255>>, <<3, 0, 0, 0, 0, 0, 0, 0>>, <<253, 255, 255, 255, 255, 255, 255, 255>>, <<4, 0, 0, 0, 0, 0, 0, 0>>,
  <<252, 255, 255, 255, 255, 255, 255, 255>>, <<5, 0, 0, 0, 0, 0, 0, 0>>, <<251, 255, 255, 255, 255, 255, 255, 255>>, <<6, 0, 0, 0, 0, 0, 0, 0>>,
  <<250, 255, 255, 255, 255, 255, 255, 255>>, <<7, 0, 0, 0, 0, 0, 0, 0>>, <<249, 255, 255, 255, 255, 255, 255, 255>>, <<8, 0, 0, 0, 0, 0, 0, 0>>,
  <<248, 255, 255, 255, 255, 255, 255, 255>>, <<9, 0, 0, 0, 0, 0, 0, 0>>, <<247, 255, 255, 255, 255, 255, 255, 255>>, <<10, 0, 0, 0, 0, 0, 0, 0>>,
  <<246, 255, 255, 255, 255, 255, 255, 255>>, <<11, 0, 0, 0, 0, 0, 0, 0>>, <<245, 255, 255, 255, 255, 255, 255, 255>>, <<12, 0, 0, 0, 0, 0, 0, 0>>,
  <<244, 255, 255, 255, 255, 255, 255, 255>>, <<13, 0, 0, 0, 0, 0, 0, 0>>, <<243, 255, 255, 255, 255, 255, 255, 255>>, <<14, 0, 0, 0, 0, 0, 0, 0>>,
  <<242, 255, 255, 255, 255, 255, 255, 255>>, <<15, 0, 0, 0, 0, 0, 0, 0>>, <<241, 255, 255, 255, 255, 255, 255, 255>>, <<16, 0, 0, 0, 0, 0, 0, 0>>,
  <<240, 255, 255, 255, 255, 255, 255, 255>>, <<17, 0, 0, 0, 0, 0, 0, 0>>, <<239, 255, 255, 255, 255, 255, 255, 255>>, <<18, 0, 0, 0, 0, 0, 0, 0>>,
  <<238, 255, 255, 255, 255, 255, 255, 255>>, <<19, 0, 0, 0, 0, 0, 0, 0>>, <<237, 255, 255, 255, 255, 255, 255, 255>>, <<20, 0, 0, 0, 0, 0, 0, 0>>,
  <<236, 255, 255, 255, 255, 255, 255, 255>>, <<21, 0, 0, 0, 0, 0, 0, 0>>, <<235, 255, 255, 255, 255, 255, 255, 255>>, <<22, 0, 0, 0, 0, 0, 0, 0>>,
  <<234, 255, 255, 255, 255, 255, 255, 255>>, <<23, 0, 0, 0, 0, 0, 0, 0>>, <<233, 255, 255, 255, 255, 255, 255, 255>>, <<24, 0, 0, 0, 0, 0, 0, 0>>,
  <<232, 255, 255, 255, 255, 255, 255, 255>>, <<25, 0, 0, 0, 0, 0, 0, 0>>, <<231, 255, 255, 255, 255, 255, 255, 255>>, <<26, 0, 0, 0, 0, 0, 0, 0>>,
  <<230, 255, 255, 255, 255, 255, 255, 255>>, <<27, 0, 0, 0, 0, 0, 0, 0>>, <<229, 255, 255, 255, 255, 255, 255, 255>>, <<28, 0, 0, 0, 0, 0, 0, 0>>,
  <<228, 255, 255, 255, 255, 255, 255, 255>>, <<29, 0, 0, 0, 0, 0, 0, 0>>, <<227, 255, 255, 255, 255, 255, 255, 255>>, <<30, 0, 0, 0, 0, 0, 0, 0>>,
  <<226, 255, 255, 255, 255, 255, 255, 255>>, <<31, 0, 0, 0, 0, 0, 0, 0>>, <<225, 255, 255, 255, 255, 255, 255, 255>>, <<32, 0, 0, 0, 0, 0, 0, 0>>,
  <<224, 255, 255, 255, 255, 255, 255, 255>>, <<33, 0, 0, 0, 0, 0, 0, 0>>, <<223, 255, 255, 255, 255, 255, 255, 255>>, <<36, 0, 0, 0, 0, 0, 0, 0>>,
  <<220, 255, 255, 255, 255, 255, 255, 255>>, <<42, 0, 0, 0, 0, 0, 0, 0>>, <<214, 255, 255, 255, 255, 255, 255, 255>>, <<48, 0, 0, 0, 0, 0, 0, 0>>,
  <<208, 255, 255, 255, 255, 255, 255, 255>>, <<50, 0, 0, 0, 0, 0, 0, 0>>, <<206, 255, 255, 255, 255, 255, 255, 255>>, <<60, 0, 0, 0, 0, 0, 0, 0>>,
  <<196, 255, 255, 255, 255, 255, 255, 255>>, <<63, 0, 0, 0, 0, 0, 0, 0>>, <<193, 255, 255, 255, 255, 255, 255, 255>>, <<64, 0, 0, 0, 0, 0, 0, 0>>,
  <<192, 255, 255, 255, 255, 255, 255, 255>>, <<65, 0, 0, 0, 0, 0, 0, 0>>, <<191, 255, 255, 255, 255, 255, 255, 255>>, <<90, 0, 0, 0, 0, 0, 0, 0>>,
  <<166, 255, 255, 255, 255, 255, 255, 255>>, <<91, 0, 0, 0, 0, 0, 0, 0>>, <<165, 255, 255, 255, 255, 255, 255, 255>>, <<97, 0, 0, 0, 0, 0, 0, 0>>,
  <<159, 255, 255, 255, 255, 255, 255, 255>>, <<99, 0, 0, 0, 0, 0, 0, 0>>, <<157, 255, 255, 255, 255, 255, 255, 255>>, <<100, 0, 0, 0, 0, 0, 0, 0>>,
  <<156, 255, 255, 255, 255, 255, 255, 255>>, <<101, 0, 0, 0, 0, 0, 0, 0>>, <<155, 255, 255, 255, 255, 255, 255, 255>>, <<126, 0, 0, 0, 0, 0, 0, 0>>,
  <<130, 255, 255, 255, 255, 255, 255, 255>>, <<127, 0, 0, 0, 0, 0, 0, 0>>, <<129, 255, 255, 255, 255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 0, 0>>,
  <<128, 255, 255, 255, 255, 255, 255, 255>>, <<129, 0, 0, 0, 0, 0, 0, 0>>, <<127, 255, 255, 255, 255, 255, 255, 255>>, <<180, 0, 0, 0, 0, 0, 0, 0>>,
  <<76, 255, 255, 255, 255, 255, 255, 255>>, <<200, 0, 0, 0, 0, 0, 0, 0>>, <<56, 255, 255, 255, 255, 255, 255, 255>>, <<254, 0, 0, 0, 0, 0, 0, 0>>,
  <<2, 255, 255, 255, 255, 255, 255, 255>>, <<255, 0, 0, 0, 0, 0, 0, 0>>, <<1, 255, 255, 255, 255, 255, 255, 255>>, <<0, 1, 0, 0, 0, 0, 0, 0>>,
  <<0, 255, 255, 255, 255, 255, 255, 255>>, <<1, 1, 0, 0, 0, 0, 0, 0>>, <<255, 254, 255, 255, 255, 255, 255, 255>>, <<44, 1, 0, 0, 0, 0, 0, 0>>,
  <<212, 254, 255, 255, 255, 255, 255, 255>>, <<104, 1, 0, 0, 0, 0, 0, 0>>, <<152, 254, 255, 255, 255, 255, 255, 255>>, <<109, 1, 0, 0, 0, 0, 0, 0>>,
  <<147, 254, 255, 255, 255, 255, 255, 255>>, <<255, 1, 0, 0, 0, 0, 0, 0>>, <<1, 254, 255, 255, 255, 255, 255, 255>>, <<0, 2, 0, 0, 0, 0, 0, 0>>,
  <<0, 254, 255, 255, 255, 255, 255, 255>>, <<1, 2, 0, 0, 0, 0, 0, 0>>, <<255, 253, 255, 255, 255, 255, 255, 255>>, <<231, 3, 0, 0, 0, 0, 0, 0>>,
  <<25, 252, 255, 255, 255, 255, 255, 255>>, <<232, 3, 0, 0, 0, 0, 0, 0>>, <<24, 252, 255, 255, 255, 255, 255, 255>>, <<233, 3, 0, 0, 0, 0, 0, 0>>,
  <<23, 252, 255, 255, 255, 255, 255, 255>>, <<255, 3, 0, 0, 0, 0, 0, 0>>, <<1, 252, 255, 255, 255, 255, 255, 255>>, <<0, 4, 0, 0, 0, 0, 0, 0>>,
  <<0, 252, 255, 255, 255, 255, 255, 255>>, <<1, 4, 0, 0, 0, 0, 0, 0>>, <<255, 251, 255, 255, 255, 255, 255, 255>>, <<178, 7, 0, 0, 0, 0, 0, 0>>,
  <<78, 248, 255, 255, 255, 255, 255, 255>>, <<208, 7, 0, 0, 0, 0, 0, 0>>, <<48, 248, 255, 255, 255, 255, 255, 255>>, <<255, 15, 0, 0, 0, 0, 0, 0>>,
  <<1, 240, 255, 255, 255, 255, 255, 255>>, <<0, 16, 0, 0, 0, 0, 0, 0>>, <<0, 240, 255, 255, 255, 255, 255, 255>>, <<0, 32, 0, 0, 0, 0, 0, 0>>,
  <<0, 224, 255, 255, 255, 255, 255, 255>>, <<15, 39, 0, 0, 0, 0, 0, 0>>, <<241, 216, 255, 255, 255, 255, 255, 255>>, <<16, 39, 0, 0, 0, 0, 0, 0>>,
  <<240, 216, 255, 255, 255, 255, 255, 255>>, <<255, 63, 0, 0, 0, 0, 0, 0>>, <<1, 192, 255, 255, 255, 255, 255, 255>>, <<0, 64, 0, 0, 0, 0, 0, 0>>,
  <<0, 192, 255, 255, 255, 255, 255, 255>>, <<255, 127, 0, 0, 0, 0, 0, 0>>, <<1, 128, 255, 255, 255, 255, 255, 255>>, <<0, 128, 0, 0, 0, 0, 0, 0>>,
  <<0, 128, 255, 255, 255, 255, 255, 255>>, <<1, 128, 0, 0, 0, 0, 0, 0>>, <<255, 127, 255, 255, 255, 255, 255, 255>>, <<254, 255, 0, 0, 0, 0, 0, 0>>,
  <<2, 0, 255, 255, 255, 255, 255, 255>>, <<255, 255, 0, 0, 0, 0, 0, 0>>, <<1, 0, 255, 255, 255, 255, 255, 255>>, <<0, 0, 1, 0, 0, 0, 0, 0>>,
  <<0, 0, 255, 255, 255, 255, 255, 255>>, <<1, 0, 1, 0, 0, 0, 0, 0>>, <<255, 255, 254, 255, 255, 255, 255, 255>>, <<159, 134, 1, 0, 0, 0, 0, 0>>,
  <<97, 121, 254, 255, 255, 255, 255, 255>>, <<160, 134, 1, 0, 0, 0, 0, 0>>, <<96, 121, 254, 255, 255, 255, 255, 255>>, <<0, 0, 2, 0, 0, 0, 0, 0>>,
  <<0, 0, 254, 255, 255, 255, 255, 255>>, <<64, 66, 15, 0, 0, 0, 0, 0>>, <<192, 189, 240, 255, 255, 255, 255, 255>>, <<0, 0, 16, 0, 0, 0, 0, 0>>,
  <<0, 0, 240, 255, 255, 255, 255, 255>>, <<255, 255, 255, 0, 0, 0, 0, 0>>, <<1, 0, 0, 255, 255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 0, 0, 0>>, <<0, 0, 0, 255, 255, 255, 255, 255>>,
  <<1, 0, 0, 1, 0, 0, 0, 0>>, <<255, 255, 255, 254, 255, 255, 255, 255>>, <<65, 65, 65, 65, 0, 0, 0, 0>>, <<191, 190, 190, 190, 255, 255, 255, 255>>,
  <<71, 86, 65, 83, 0, 0, 0, 0>>, <<185, 169, 190, 172, 255, 255, 255, 255>>, <<120, 86, 52, 18, 0, 0, 0, 0>>, <<136, 169, 203, 237, 255, 255, 255, 255>>,
  <<255, 255, 255, 127, 0, 0, 0, 0>>, <<1, 0, 0, 128, 255, 255, 255, 255>>, <<0, 0, 0, 128, 0, 0, 0, 0>>, <<0, 0, 0, 128, 255, 255, 255, 255>>, <<255, 255, 255, 255, 0, 0, 0, 0>>,
  <<1, 0, 0, 0, 255, 255, 255, 255>>, <<0, 225, 245, 5, 0, 0, 0, 0>>, <<0, 31, 10, 250, 255, 255, 255, 255>>, <<0, 202, 154, 59, 0, 0, 0, 0>>,
  <<0, 54, 101, 196, 255, 255, 255, 255>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 0, 0, 0, 255, 255, 255, 255>>, <<1, 0, 0, 0, 1, 0, 0, 0>>, <<255, 255, 255, 255, 254, 255, 255, 255>>,
  <<0, 0, 0, 0, 2, 0, 0, 0>>, <<0, 0, 0, 0, 254, 255, 255, 255>>, <<0, 228, 11, 84, 2, 0, 0, 0>>, <<0, 28, 244, 171, 253, 255, 255, 255>>, <<0, 16, 165, 212, 232, 0, 0, 0>>,
  <<0, 240, 90, 43, 23, 255, 255, 255>>, <<0, 192, 105, 42, 201, 0, 0, 0>>, <<0, 64, 150, 213, 54, 255, 255, 255>>, <<0, 104, 196, 97, 8, 0, 0, 0>>,
  <<0, 152, 59, 158, 247, 255, 255, 255>>, <<128, 150, 152, 0, 0, 0, 0, 0>>, <<128, 105, 103, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 1, 0, 0>>,
  <<0, 0, 0, 0, 0, 255, 255, 255>>, <<0, 0, 0, 0, 0, 128, 0, 0>>, <<0, 0, 0, 0, 0, 128, 255, 255>>, <<0, 0, 0, 0, 0, 0, 1, 0>>, <<0, 0, 0, 0, 0, 0, 255, 255>>,
  <<0, 0, 0, 0, 0, 0, 16, 0>>, <<0, 0, 0, 0, 0, 0, 240, 255>>, <<255, 255, 255, 255, 255, 255, 31, 0>>, <<1, 0, 0, 0, 0, 0, 224, 255>>, <<0, 0, 0, 0, 0, 0, 32, 0>>,
  <<0, 0, 0, 0, 0, 0, 224, 255>>, <<1, 0, 0, 0, 0, 0, 32, 0>>, <<255, 255, 255, 255, 255, 255, 223, 255>>, <<0, 128, 198, 164, 126, 141, 3, 0>>,
  <<0, 128, 57, 91, 129, 114, 252, 255>>, <<0, 0, 100, 167, 179, 182, 224, 13>>, <<0, 0, 156, 88, 76, 73, 31, 242>>, <<0, 128, 181, 247, 245, 127, 159, 8>>,
  <<0, 128, 74, 8, 10, 128, 96, 247>>, <<255, 63, 55, 244, 117, 40, 202, 43>>, <<1, 192, 200, 11, 138, 215, 53, 212>>, <<0, 64, 55, 244, 117, 40, 202, 43>>,
  <<0, 192, 200, 11, 138, 215, 53, 212>>, <<0, 0, 0, 0, 0, 0, 0, 64>>, <<0, 0, 0, 0, 0, 0, 0, 192>>, <<255, 255, 255, 255, 255, 255, 255, 127>>, <<1, 0, 0, 0, 0, 0, 0, 128>>,
  <<0, 0, 0, 0, 0, 0, 0, 128>>, <<254, 255, 255, 255, 255, 255, 255, 127>>, <<2, 0, 0, 0, 0, 0, 0, 128>>, <<1, 1, 1, 1, 1, 1, 1, 1>>, <<255, 254, 254, 254, 254, 254, 254, 254>>,
  <<239, 190, 173, 222, 0, 0, 0, 0>>, <<17, 65, 82, 33, 255, 255, 255, 255>>, <<204, 204, 204, 204, 0, 0, 0, 0>>, <<52, 51, 51, 51, 255, 255, 255, 255>>,
  <<205, 205, 205, 205, 0, 0, 0, 0>>, <<51, 50, 50, 50, 255, 255, 255, 255>>, <<1, 0, 0, 128, 0, 0, 0, 0>>, <<255, 255, 255, 127, 255, 255, 255, 255>>,
  <<254, 255, 255, 127, 0, 0, 0, 0>>, <<2, 0, 0, 128, 255, 255, 255, 255>> >>
(* The shortest decimal text that names the number *)
ShowF4 == <<
  <<<<0, 0, 0, 0>>, "0">>,
  <<<<0, 0, 0, 128>>, "-0">>,
  <<<<0, 0, 0, 62>>, "0.125">>,
  <<<<0, 0, 0, 190>>, "-0.125">>,
  <<<<0, 0, 128, 62>>, "0.25">>,
  <<<<0, 0, 128, 190>>, "-0.25">>,
  <<<<0, 0, 0, 63>>, "0.5">>,
  <<<<0, 0, 0, 191>>, "-0.5">>,
  <<<<0, 0, 64, 63>>, "0.75">>,
  <<<<0, 0, 64, 191>>, "-0.75">>,
  <<<<0, 0, 128, 63>>, "1">>,
  <<<<0, 0, 128, 191>>, "-1">>,
  <<<<0, 0, 192, 63>>, "1.5">>,
  <<<<0, 0, 192, 191>>, "-1.5">>,
  <<<<0, 0, 0, 64>>, "2">>,
  <<<<0, 0, 0, 192>>, "-2">>,
  <<<<0, 0, 64, 64>>, "3">>,
  <<<<0, 0, 64, 192>>, "-3">>,
  <<<<0, 0, 128, 64>>, "4">>,
  <<<<0, 0, 128, 192>>, "-4">>,
  <<<<0, 0, 160, 64>>, "5">>,
  <<<<0, 0, 160, 192>>, "-5">>,
  <<<<0, 0, 192, 64>>, "6">>,
  <<<<0, 0, 192, 192>>, "-6">>,
  <<<<0, 0, 224, 64>>, "7">>,
  <<<<0, 0, 224, 192>>, "-7">>,
  <<<<0, 0, 0, 65>>, "8">>,
  <<<<0, 0, 0, 193>>, "-8">>,
  <<<<0, 0, 16, 65>>, "9">>,
  <<<<0, 0, 16, 193>>, "-9">>,
  <<<<0, 0, 32, 65>>, "10">>,
  <<<<0, 0, 32, 193>>, "-10">>,
  <<<<0, 0, 64, 65>>, "12">>,
  <<<<0, 0, 64, 193>>, "-12">>,
  <<<<0, 0, 112, 65>>, "15">>,
  <<<<0, 0, 112, 193>>, "-15">>,
  <<<<0, 0, 128, 65>>, "16">>,
  <<<<0, 0, 128, 193>>, "-16">>,
  <<<<0, 0, 192, 65>>, "24">>,
  <<<<0, 0, 192, 193>>, "-24">>,
  <<<<0, 0, 240, 65>>, "30">>,
  <<<<0, 0, 240, 193>>, "-30">>,
  <<<<0, 0, 0, 66>>, "32">>,
  <<<<0, 0, 0, 194>>, "-32">>,
  <<<<0, 0, 52, 66>>, "45">>,
  <<<<0, 0, 52, 194>>, "-45">>,
  <<<<0, 0, 112, 66>>, "60">>,
  <<<<0, 0, 112, 194>>, "-60">>,
  <<<<0, 0, 124, 66>>, "63">>,
  <<<<0, 0, 124, 194>>, "-63">>,
  <<<<0, 0, 128, 66>>, "64">>,
  <<<<0, 0, 128, 194>>, "-64">>,
  <<<<0, 0, 180, 66>>, "90">>,
  <<<<0, 0, 180, 194>>, "-90">>,
  <<<<0, 0, 198, 66>>, "99">>,
  <<<<0, 0, 198, 194>>, "-99">>,
  <<<<0, 0, 200, 66>>, "100">>,
  <<<<0, 0, 200, 194>>, "-100">>,
  <<<<0, 0, 240, 66>>, "120">>,
  <<<<0, 0, 240, 194>>, "-120">>,
  <<<<0, 0, 254, 66>>, "127">>,
  <<<<0, 0, 254, 194>>, "-127">>,
  <<<<0, 0, 0, 67>>, "128">>,
  <<<<0, 0, 0, 195>>, "-128">>,
  <<<<0, 0, 7, 67>>, "135">>,
  <<<<0, 0, 7, 195>>, "-135">>,
  <<<<0, 0, 52, 67>>, "180">>,
  <<<<0, 0, 52, 195>>, "-180">>,
  <<<<0, 0, 97, 67>>, "225">>,
  <<<<0, 0, 97, 195>>, "-225">>,
  <<<<0, 0, 126, 67>>, "254">>,
  <<<<0, 0, 126, 195>>, "-254">>,
  <<<<0, 0, 127, 67>>, "255">>,
  <<<<0, 0, 127, 195>>, "-255">>,
  <<<<0, 0, 128, 67>>, "256">>,
  <<<<0, 0, 128, 195>>, "-256">>,
  <<<<0, 0, 135, 67>>, "270">>,
  <<<<0, 0, 135, 195>>, "-270">>,
  <<<<0, 128, 157, 67>>, "315">>,
  <<<<0, 128, 157, 195>>, "-315">>,
  <<<<0, 128, 179, 67>>, "359">>,
  <<<<0, 128, 179, 195>>, "-359">>,
  <<<<0, 0, 180, 67>>, "360">>,
  <<<<0, 0, 180, 195>>, "-360">>,
  <<<<0, 128, 180, 67>>, "361">>,
  <<<<0, 128, 180, 195>>, "-361">>,
  <<<<0, 128, 182, 67>>, "365">>,
  <<<<0, 128, 182, 195>>, "-365">>,
  <<<<0, 0, 200, 67>>, "400">>,
  <<<<0, 0, 200, 195>>, "-400">>,
  <<<<0, 0, 225, 67>>, "450">>,
  <<<<0, 0, 225, 195>>, "-450">>,
  <<<<0, 0, 250, 67>>, "500">>,
  <<<<0, 0, 250, 195>>, "-500">>,
  <<<<0, 0, 7, 68>>, "540">>,
  <<<<0, 0, 7, 196>>, "-540">>,
  <<<<0, 0, 52, 68>>, "720">>,
  <<<<0, 0, 52, 196>>, "-720">>,
  <<<<0, 192, 121, 68>>, "999">>,
  <<<<0, 192, 121, 196>>, "-999">>,
  <<<<0, 0, 122, 68>>, "1000">>,
  <<<<0, 0, 122, 196>>, "-1000">>,
  <<<<0, 0, 128, 68>>, "1024">>,
  <<<<0, 0, 128, 196>>, "-1024">>,
  <<<<0, 0, 97, 69>>, "3600">>,
  <<<<0, 0, 97, 197>>, "-3600">>,
  <<<<0, 0, 128, 69>>, "4096">>,
  <<<<0, 0, 128, 197>>, "-4096">>,
  <<<<0, 64, 28, 70>>, "10000">>,
  <<<<0, 64, 28, 198>>, "-10000">>,
  <<<<0, 254, 255, 70>>, "32767">>,
  <<<<0, 254, 255, 198>>, "-32767">>,
  <<<<0, 0, 0, 71>>, "32768">>,
  <<<<0, 0, 0, 199>>, "-32768">>,
  <<<<0, 255, 127, 71>>, "65535">>,
  <<<<0, 255, 127, 199>>, "-65535">>,
  <<<<0, 0, 128, 71>>, "65536">>,
  <<<<0, 0, 128, 199>>, "-65536">>,
  <<<<0, 192, 168, 71>>, "86400">>,
  <<<<0, 192, 168, 199>>, "-86400">>,
  <<<<0, 80, 195, 71>>, "100000">>,
  <<<<0, 80, 195, 199>>, "-100000">>,
  <<<<0, 36, 116, 73>>, "1000000">>,
  <<<<0, 36, 116, 201>>, "-1000000">>,
  <<<<255, 255, 127, 75>>, "16777215">>,
  <<<<255, 255, 127, 203>>, "-16777215">>,
  <<<<0, 0, 128, 75>>, "16777216">>,
  <<<<0, 0, 128, 203>>, "-16777216">>,
  <<<<0, 0, 0, 79>>, "2147483600">>,
  <<<<0, 0, 0, 207>>, "-2147483600">>,
  <<<<0, 0, 128, 79>>, "4294967300">>,
  <<<<0, 0, 128, 207>>, "-4294967300">>,
  <<<<0, 0, 0, 90>>, "9007199000000000">>,
  <<<<0, 0, 0, 218>>, "-9007199000000000">>,
  <<<<0, 0, 0, 95>>, "9223372000000000000">>,
  <<<<0, 0, 0, 223>>, "-9223372000000000000">>,
  <<<<0, 0, 128, 95>>, "18446744000000000000">>,
  <<<<0, 0, 128, 223>>, "-18446744000000000000">>,
  <<<<219, 15, 73, 64>>, "3.1415927">>,
  <<<<219, 15, 73, 192>>, "-3.1415927">>,
  <<<<219, 15, 201, 64>>, "6.2831855">>,
  <<<<219, 15, 201, 192>>, "-6.2831855">>,
  <<<<219, 15, 201, 63>>, "1.5707964">>,
  <<<<219, 15, 201, 191>>, "-1.5707964">>,
  <<<<219, 15, 73, 63>>, "0.7853982">>,
  <<<<219, 15, 73, 191>>, "-0.7853982">>,
  <<<<53, 250, 142, 60>>, "0.017453292">>,
  <<<<53, 250, 142, 188>>, "-0.017453292">>,
  <<<<225, 46, 101, 66>>, "57.29578">>,
  <<<<225, 46, 101, 194>>, "-57.29578">>,
  <<<<84, 248, 45, 64>>, "2.7182817">>,
  <<<<84, 248, 45, 192>>, "-2.7182817">>,
  <<<<243, 4, 181, 63>>, "1.4142135">>,
  <<<<243, 4, 181, 191>>, "-1.4142135">>,
  <<<<243, 4, 53, 63>>, "0.70710677">>,
  <<<<243, 4, 53, 191>>, "-0.70710677">>,
  <<<<171, 170, 170, 62>>, "0.33333334">>,
  <<<<171, 170, 170, 190>>, "-0.33333334">>,
  <<<<171, 170, 42, 63>>, "0.6666667">>,
  <<<<171, 170, 42, 191>>, "-0.6666667">>,
  <<<<205, 204, 204, 61>>, "0.1">>,
  <<<<205, 204, 204, 189>>, "-0.1">>,
  <<<<205, 204, 76, 62>>, "0.2">>,
  <<<<205, 204, 76, 190>>, "-0.2">>,
  <<<<154, 153, 153, 62>>, "0.3">>,
  <<<<154, 153, 153, 190>>, "-0.3">>,
  <<<<205, 204, 204, 62>>, "0.4">>,
  <<<<205, 204, 204, 190>>, "-0.4">>,
  <<<<154, 153, 25, 63>>, "0.6">>,
  <<<<154, 153, 25, 191>>, "-0.6">>,
  <<<<51, 51, 51, 63>>, "0.7">>,
  <<<<51, 51, 51, 191>>, "-0.7">>,
  <<<<205, 204, 76, 63>>, "0.8">>,
  <<<<205, 204, 76, 191>>, "-0.8">>,
  <<<<102, 102, 102, 63>>, "0.9">>,
  <<<<102, 102, 102, 191>>, "-0.9">>,
  <<<<51, 51, 115, 63>>, "0.95">>,
  <<<<51, 51, 115, 191>>, "-0.95">>,
  <<<<164, 112, 125, 63>>, "0.99">>,
  <<<<164, 112, 125, 191>>, "-0.99">>,
  <<<<119, 190, 127, 63>>, "0.999">>,
  <<<<119, 190, 127, 191>>, "-0.999">>,
  <<<<114, 249, 127, 63>>, "0.9999">>,
  <<<<114, 249, 127, 191>>, "-0.9999">>,
  <<<<205, 204, 140, 63>>, "1.1">>,
  <<<<205, 204, 140, 191>>, "-1.1">>,
  <<<<129, 128, 128, 59>>, "0.003921569">>,
  <<<<129, 128, 128, 187>>, "-0.003921569">>,
  <<<<129, 128, 0, 63>>, "0.5019608">>,
  <<<<129, 128, 0, 191>>, "-0.5019608">>,
  <<<<255, 254, 126, 63>>, "0.99607843">>,
  <<<<255, 254, 126, 191>>, "-0.99607843">>,
  <<<<10, 215, 35, 60>>, "0.01">>,
  <<<<10, 215, 35, 188>>, "-0.01">>,
  <<<<111, 18, 131, 58>>, "0.001">>,
  <<<<111, 18, 131, 186>>, "-0.001">>,
  <<<<23, 183, 209, 56>>, "0.0001">>,
  <<<<23, 183, 209, 184>>, "-0.0001">>,
  <<<<172, 197, 39, 55>>, "0.00001">>,
  <<<<172, 197, 39, 183>>, "-0.00001">>,
  <<<<189, 55, 134, 53>>, "0.000001">>,
  <<<<189, 55, 134, 181>>, "-0.000001">>,
  <<<<149, 191, 214, 51>>, "0.0000001">>,
  <<<<149, 191, 214, 179>>, "-0.0000001">>,
  <<<<119, 204, 43, 50>>, "0.00000001">>,
  <<<<119, 204, 43, 178>>, "-0.00000001">>,
  <<<<95, 112, 137, 48>>, "0.000000001">>,
  <<<<95, 112, 137, 176>>, "-0.000000001">>,
  <<<<255, 230, 219, 46>>, "0.0000000001">>,
  <<<<255, 230, 219, 174>>, "-0.0000000001">>,
  <<<<204, 188, 140, 43>>, "0.000000000001">>,
  <<<<204, 188, 140, 171>>, "-0.000000000001">>,
  <<<<8, 229, 60, 30>>, "0.00000000000000000001">>,
  <<<<8, 229, 60, 158>>, "-0.00000000000000000001">>,
  <<<<96, 66, 162, 13>>, "0.000000000000000000000000000001">>,
  <<<<96, 66, 162, 141>>, "-0.000000000000000000000000000001">>,
  <<<<238, 227, 108, 0>>, "0.00000000000000000000000000000000000001">>,
  <<<<238, 227, 108, 128>>, "-0.00000000000000000000000000000000000001">>,
  <<<<249, 2, 21, 80>>, "10000000000">>,
  <<<<249, 2, 21, 208>>, "-10000000000">>,
  <<<<236, 120, 173, 96>>, "100000000000000000000">>,
  <<<<236, 120, 173, 224>>, "-100000000000000000000">>,
  <<<<202, 242, 73, 113>>, "1000000000000000000000000000000">>,
  <<<<202, 242, 73, 241>>, "-1000000000000000000000000000000">>,
  <<<<153, 118, 150, 126>>, "100000000000000000000000000000000000000">>,
  <<<<153, 118, 150, 254>>, "-100000000000000000000000000000000000000">>,
  <<<<0, 0, 0, 52>>, "0.00000011920929">>,
  <<<<0, 0, 0, 180>>, "-0.00000011920929">>,
  <<<<0, 0, 128, 51>>, "0.000000059604645">>,
  <<<<0, 0, 128, 179>>, "-0.000000059604645">>,
  <<<<0, 0, 128, 37>>, "0.0000000000000002220446">>,
  <<<<0, 0, 128, 165>>, "-0.0000000000000002220446">>,
  <<<<0, 0, 128, 0>>, "0.000000000000000000000000000000000000011754944">>,
  <<<<0, 0, 128, 128>>, "-0.000000000000000000000000000000000000011754944">>,
  <<<<0, 0, 64, 0>>, "0.000000000000000000000000000000000000005877472">>,
  <<<<0, 0, 64, 128>>, "-0.000000000000000000000000000000000000005877472">>,
  <<<<1, 0, 0, 0>>, "0.000000000000000000000000000000000000000000001">>,
  <<<<1, 0, 0, 128>>, "-0.000000000000000000000000000000000000000000001">>,
  <<<<255, 255, 127, 63>>, "0.99999994">>,
  <<<<1, 0, 128, 63>>, "1.0000001">>,
  <<<<255, 255, 127, 127>>, "340282350000000000000000000000000000000">>,
  <<<<255, 255, 127, 255>>, "-340282350000000000000000000000000000000">>,
  <<<<0, 0, 128, 127>>, "inf">>,
  <<<<0, 0, 128, 255>>, "-inf">>,
  <<<<0, 0, 192, 127>>, "NaN">>,
  <<<<0, 0, 192, 255>>, "NaN">>,
  <<<<1, 0, 128, 127>>, "NaN">>,
  <<<<255, 255, 255, 127>>, "NaN">>,
  <<<<255, 255, 255, 255>>, "NaN">>,
  <<<<255, 255, 127, 0>>, "0.000000000000000000000000000000000000011754942">>,
  <<<<1, 0, 128, 0>>, "0.000000000000000000000000000000000000011754945">>,
  <<<<255, 255, 51, 67>>, "179.99998">>,
  <<<<255, 255, 179, 67>>, "359.99997">>,
  <<<<1, 0, 180, 67>>, "360.00003">> >>
ShowF8 == <<
  <<<<0, 0, 0, 0, 0, 0, 0, 0>>, "0">>,
  <<<<0, 0, 0, 0, 0, 0, 0, 128>>, "-0">>,
  <<<<0, 0, 0, 0, 0, 0, 192, 63>>, "0.125">>,
  <<<<0, 0, 0, 0, 0, 0, 192, 191>>, "-0.125">>,
  <<<<0, 0, 0, 0, 0, 0, 208, 63>>, "0.25">>,
  <<<<0, 0, 0, 0, 0, 0, 208, 191>>, "-0.25">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 63>>, "0.5">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 191>>, "-0.5">>,
  <<<<0, 0, 0, 0, 0, 0, 232, 63>>, "0.75">>,
  <<<<0, 0, 0, 0, 0, 0, 232, 191>>, "-0.75">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 63>>, "1">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 191>>, "-1">>,
  <<<<0, 0, 0, 0, 0, 0, 248, 63>>, "1.5">>,
  <<<<0, 0, 0, 0, 0, 0, 248, 191>>, "-1.5">>,
  <<<<0, 0, 0, 0, 0, 0, 0, 64>>, "2">>,
  <<<<0, 0, 0, 0, 0, 0, 0, 192>>, "-2">>,
  <<<<0, 0, 0, 0, 0, 0, 8, 64>>, "3">>,
  <<<<0, 0, 0, 0, 0, 0, 8, 192>>, "-3">>,
  <<<<0, 0, 0, 0, 0, 0, 16, 64>>, "4">>,
  <<<<0, 0, 0, 0, 0, 0, 16, 192>>, "-4">>,
  <<<<0, 0, 0, 0, 0, 0, 20, 64>>, "5">>,
  <<<<0, 0, 0, 0, 0, 0, 20, 192>>, "-5">>,
  <<<<0, 0, 0, 0, 0, 0, 24, 64>>, "6">>,
  <<<<0, 0, 0, 0, 0, 0, 24, 192>>, "-6">>,
  <<<<0, 0, 0, 0, 0, 0, 28, 64>>, "7">>,
  <<<<0, 0, 0, 0, 0, 0, 28, 192>>, "-7">>,
  <<<<0, 0, 0, 0, 0, 0, 32, 64>>, "8">>,
  <<<<0, 0, 0, 0, 0, 0, 32, 192>>, "-8">>,
  <<<<0, 0, 0, 0, 0, 0, 34, 64>>, "9">>,
  <<<<0, 0, 0, 0, 0, 0, 34, 192>>, "-9">>,
  <<<<0, 0, 0, 0, 0, 0, 36, 64>>, "10">>,
  <<<<0, 0, 0, 0, 0, 0, 36, 192>>, "-10">>,
  <<<<0, 0, 0, 0, 0, 0, 40, 64>>, "12">>,
  <<<<0, 0, 0, 0, 0, 0, 40, 192>>, "-12">>,
  <<<<0, 0, 0, 0, 0, 0, 46, 64>>, "15">>,
  <<<<0, 0, 0, 0, 0, 0, 46, 192>>, "-15">>,
  <<<<0, 0, 0, 0, 0, 0, 48, 64>>, "16">>,
  <<<<0, 0, 0, 0, 0, 0, 48, 192>>, "-16">>,
  <<<<0, 0, 0, 0, 0, 0, 56, 64>>, "24">>,
  <<<<0, 0, 0, 0, 0, 0, 56, 192>>, "-24">>,
  <<<<0, 0, 0, 0, 0, 0, 62, 64>>, "30">>,
  <<<<0, 0, 0, 0, 0, 0, 62, 192>>, "-30">>,
  <<<<0, 0, 0, 0, 0, 0, 64, 64>>, "32">>,
  <<<<0, 0, 0, 0, 0, 0, 64, 192>>, "-32">>,
  <<<<0, 0, 0, 0, 0, 128, 70, 64>>, "45">>,
  <<<<0, 0, 0, 0, 0, 128, 70, 192>>, "-45">>,
  <<<<0, 0, 0, 0, 0, 0, 78, 64>>, "60">>,
  <<<<0, 0, 0, 0, 0, 0, 78, 192>>, "-60">>,
  <<<<0, 0, 0, 0, 0, 128, 79, 64>>, "63">>,
  <<<<0, 0, 0, 0, 0, 128, 79, 192>>, "-63">>,
  <<<<0, 0, 0, 0, 0, 0, 80, 64>>, "64">>,
  <<<<0, 0, 0, 0, 0, 0, 80, 192>>, "-64">>,
  <<<<0, 0, 0, 0, 0, 128, 86, 64>>, "90">>,
  <<<<0, 0, 0, 0, 0, 128, 86, 192>>, "-90">>,
  <<<<0, 0, 0, 0, 0, 192, 88, 64>>, "99">>,
  <<<<0, 0, 0, 0, 0, 192, 88, 192>>, "-99">>,
  <<<<0, 0, 0, 0, 0, 0, 89, 64>>, "100">>,
  <<<<0, 0, 0, 0, 0, 0, 89, 192>>, "-100">>,
  <<<<0, 0, 0, 0, 0, 0, 94, 64>>, "120">>,
  <<<<0, 0, 0, 0, 0, 0, 94, 192>>, "-120">>,
  <<<<0, 0, 0, 0, 0, 192, 95, 64>>, "127">>,
  <<<<0, 0, 0, 0, 0, 192, 95, 192>>, "-127">>,
  <<<<0, 0, 0, 0, 0, 0, 96, 64>>, "128">>,
  <<<<0, 0, 0, 0, 0, 0, 96, 192>>, "-128">>,
  <<<<0, 0, 0, 0, 0, 224, 96, 64>>, "135">>,
  <<<<0, 0, 0, 0, 0, 224, 96, 192>>, "-135">>,
  <<<<0, 0, 0, 0, 0, 128, 102, 64>>, "180">>,
  <<<<0, 0, 0, 0, 0, 128, 102, 192>>, "-180">>,
  <<<<0, 0, 0, 0, 0, 32, 108, 64>>, "225">>,
  <<<<0, 0, 0, 0, 0, 32, 108, 192>>, "-225">>,
  <<<<0, 0, 0, 0, 0, 192, 111, 64>>, "254">>,
  <<<<0, 0, 0, 0, 0, 192, 111, 192>>, "-254">>,
  <<<<0, 0, 0, 0, 0, 224, 111, 64>>, "255">>,
  <<<<0, 0, 0, 0, 0, 224, 111, 192>>, "-255">>,
  <<<<0, 0, 0, 0, 0, 0, 112, 64>>, "256">>,
  <<<<0, 0, 0, 0, 0, 0, 112, 192>>, "-256">>,
  <<<<0, 0, 0, 0, 0, 224, 112, 64>>, "270">>,
  <<<<0, 0, 0, 0, 0, 224, 112, 192>>, "-270">>,
  <<<<0, 0, 0, 0, 0, 176, 115, 64>>, "315">>,
  <<<<0, 0, 0, 0, 0, 176, 115, 192>>, "-315">>,
  <<<<0, 0, 0, 0, 0, 112, 118, 64>>, "359">>,
  <<<<0, 0, 0, 0, 0, 112, 118, 192>>, "-359">>,
  <<<<0, 0, 0, 0, 0, 128, 118, 64>>, "360">>,
  <<<<0, 0, 0, 0, 0, 128, 118, 192>>, "-360">>,
  <<<<0, 0, 0, 0, 0, 144, 118, 64>>, "361">>,
  <<<<0, 0, 0, 0, 0, 144, 118, 192>>, "-361">>,
  <<<<0, 0, 0, 0, 0, 208, 118, 64>>, "365">>,
  <<<<0, 0, 0, 0, 0, 208, 118, 192>>, "-365">>,
  <<<<0, 0, 0, 0, 0, 0, 121, 64>>, "400">>,
  <<<<0, 0, 0, 0, 0, 0, 121, 192>>, "-400">>,
  <<<<0, 0, 0, 0, 0, 32, 124, 64>>, "450">>,
  <<<<0, 0, 0, 0, 0, 32, 124, 192>>, "-450">>,
  <<<<0, 0, 0, 0, 0, 64, 127, 64>>, "500">>,
  <<<<0, 0, 0, 0, 0, 64, 127, 192>>, "-500">>,
  <<<<0, 0, 0, 0, 0, 224, 128, 64>>, "540">>,
  <<<<0, 0, 0, 0, 0, 224, 128, 192>>, "-540">>,
  <<<<0, 0, 0, 0, 0, 128, 134, 64>>, "720">>,
  <<<<0, 0, 0, 0, 0, 128, 134, 192>>, "-720">>,
  <<<<0, 0, 0, 0, 0, 56, 143, 64>>, "999">>,
  <<<<0, 0, 0, 0, 0, 56, 143, 192>>, "-999">>,
  <<<<0, 0, 0, 0, 0, 64, 143, 64>>, "1000">>,
  <<<<0, 0, 0, 0, 0, 64, 143, 192>>, "-1000">>,
  <<<<0, 0, 0, 0, 0, 0, 144, 64>>, "1024">>,
  <<<<0, 0, 0, 0, 0, 0, 144, 192>>, "-1024">>,
  <<<<0, 0, 0, 0, 0, 32, 172, 64>>, "3600">>,
  <<<<0, 0, 0, 0, 0, 32, 172, 192>>, "-3600">>,
  <<<<0, 0, 0, 0, 0, 0, 176, 64>>, "4096">>,
  <<<<0, 0, 0, 0, 0, 0, 176, 192>>, "-4096">>,
  <<<<0, 0, 0, 0, 0, 136, 195, 64>>, "10000">>,
  <<<<0, 0, 0, 0, 0, 136, 195, 192>>, "-10000">>,
  <<<<0, 0, 0, 0, 192, 255, 223, 64>>, "32767">>,
  <<<<0, 0, 0, 0, 192, 255, 223, 192>>, "-32767">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 64>>, "32768">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 192>>, "-32768">>,
  <<<<0, 0, 0, 0, 224, 255, 239, 64>>, "65535">>,
  <<<<0, 0, 0, 0, 224, 255, 239, 192>>, "-65535">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 64>>, "65536">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 192>>, "-65536">>,
  <<<<0, 0, 0, 0, 0, 24, 245, 64>>, "86400">>,
  <<<<0, 0, 0, 0, 0, 24, 245, 192>>, "-86400">>,
  <<<<0, 0, 0, 0, 0, 106, 248, 64>>, "100000">>,
  <<<<0, 0, 0, 0, 0, 106, 248, 192>>, "-100000">>,
  <<<<0, 0, 0, 0, 128, 132, 46, 65>>, "1000000">>,
  <<<<0, 0, 0, 0, 128, 132, 46, 193>>, "-1000000">>,
  <<<<0, 0, 0, 224, 255, 255, 111, 65>>, "16777215">>,
  <<<<0, 0, 0, 224, 255, 255, 111, 193>>, "-16777215">>,
  <<<<0, 0, 0, 0, 0, 0, 112, 65>>, "16777216">>,
  <<<<0, 0, 0, 0, 0, 0, 112, 193>>, "-16777216">>,
  <<<<0, 0, 0, 16, 0, 0, 112, 65>>, "16777217">>,
  <<<<0, 0, 0, 16, 0, 0, 112, 193>>, "-16777217">>,
  <<<<0, 0, 192, 255, 255, 255, 223, 65>>, "2147483647">>,
  <<<<0, 0, 192, 255, 255, 255, 223, 193>>, "-2147483647">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 65>>, "2147483648">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 193>>, "-2147483648">>,
  <<<<0, 0, 224, 255, 255, 255, 239, 65>>, "4294967295">>,
  <<<<0, 0, 224, 255, 255, 255, 239, 193>>, "-4294967295">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 65>>, "4294967296">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 193>>, "-4294967296">>,
  <<<<255, 255, 255, 255, 255, 255, 63, 67>>, "9007199254740991">>,
  <<<<255, 255, 255, 255, 255, 255, 63, 195>>, "-9007199254740991">>,
  <<<<0, 0, 0, 0, 0, 0, 64, 67>>, "9007199254740992">>,
  <<<<0, 0, 0, 0, 0, 0, 64, 195>>, "-9007199254740992">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 67>>, "9223372036854776000">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 195>>, "-9223372036854776000">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 67>>, "18446744073709552000">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 195>>, "-18446744073709552000">>,
  <<<<24, 45, 68, 84, 251, 33, 9, 64>>, "3.141592653589793">>,
  <<<<24, 45, 68, 84, 251, 33, 9, 192>>, "-3.141592653589793">>,
  <<<<24, 45, 68, 84, 251, 33, 25, 64>>, "6.283185307179586">>,
  <<<<24, 45, 68, 84, 251, 33, 25, 192>>, "-6.283185307179586">>,
  <<<<24, 45, 68, 84, 251, 33, 249, 63>>, "1.5707963267948966">>,
  <<<<24, 45, 68, 84, 251, 33, 249, 191>>, "-1.5707963267948966">>,
  <<<<24, 45, 68, 84, 251, 33, 233, 63>>, "0.7853981633974483">>,
  <<<<24, 45, 68, 84, 251, 33, 233, 191>>, "-0.7853981633974483">>,
  <<<<57, 157, 82, 162, 70, 223, 145, 63>>, "0.017453292519943295">>,
  <<<<57, 157, 82, 162, 70, 223, 145, 191>>, "-0.017453292519943295">>,
  <<<<248, 193, 99, 26, 220, 165, 76, 64>>, "57.29577951308232">>,
  <<<<248, 193, 99, 26, 220, 165, 76, 192>>, "-57.29577951308232">>,
  <<<<105, 87, 20, 139, 10, 191, 5, 64>>, "2.718281828459045">>,
  <<<<105, 87, 20, 139, 10, 191, 5, 192>>, "-2.718281828459045">>,
  <<<<205, 59, 127, 102, 158, 160, 246, 63>>, "1.4142135623730951">>,
  <<<<205, 59, 127, 102, 158, 160, 246, 191>>, "-1.4142135623730951">>,
  <<<<205, 59, 127, 102, 158, 160, 230, 63>>, "0.7071067811865476">>,
  <<<<205, 59, 127, 102, 158, 160, 230, 191>>, "-0.7071067811865476">>,
  <<<<85, 85, 85, 85, 85, 85, 213, 63>>, "0.3333333333333333">>,
  <<<<85, 85, 85, 85, 85, 85, 213, 191>>, "-0.3333333333333333">>,
  <<<<85, 85, 85, 85, 85, 85, 229, 63>>, "0.6666666666666666">>,
  <<<<85, 85, 85, 85, 85, 85, 229, 191>>, "-0.6666666666666666">>,
  <<<<154, 153, 153, 153, 153, 153, 185, 63>>, "0.1">>,
  <<<<154, 153, 153, 153, 153, 153, 185, 191>>, "-0.1">>,
  <<<<154, 153, 153, 153, 153, 153, 201, 63>>, "0.2">>,
  <<<<154, 153, 153, 153, 153, 153, 201, 191>>, "-0.2">>,
  <<<<51, 51, 51, 51, 51, 51, 211, 63>>, "0.3">>,
  <<<<51, 51, 51, 51, 51, 51, 211, 191>>, "-0.3">>,
  <<<<154, 153, 153, 153, 153, 153, 217, 63>>, "0.4">>,
  <<<<154, 153, 153, 153, 153, 153, 217, 191>>, "-0.4">>,
  <<<<51, 51, 51, 51, 51, 51, 227, 63>>, "0.6">>,
  <<<<51, 51, 51, 51, 51, 51, 227, 191>>, "-0.6">>,
  <<<<102, 102, 102, 102, 102, 102, 230, 63>>, "0.7">>,
  <<<<102, 102, 102, 102, 102, 102, 230, 191>>, "-0.7">>,
  <<<<154, 153, 153, 153, 153, 153, 233, 63>>, "0.8">>,
  <<<<154, 153, 153, 153, 153, 153, 233, 191>>, "-0.8">>,
  <<<<205, 204, 204, 204, 204, 204, 236, 63>>, "0.9">>,
  <<<<205, 204, 204, 204, 204, 204, 236, 191>>, "-0.9">>,
  <<<<102, 102, 102, 102, 102, 102, 238, 63>>, "0.95">>,
  <<<<102, 102, 102, 102, 102, 102, 238, 191>>, "-0.95">>,
  <<<<174, 71, 225, 122, 20, 174, 239, 63>>, "0.99">>,
  <<<<174, 71, 225, 122, 20, 174, 239, 191>>, "-0.99">>,
  <<<<43, 135, 22, 217, 206, 247, 239, 63>>, "0.999">>,
  <<<<43, 135, 22, 217, 206, 247, 239, 191>>, "-0.999">>,
  <<<<30, 167, 232, 72, 46, 255, 239, 63>>, "0.9999">>,
  <<<<30, 167, 232, 72, 46, 255, 239, 191>>, "-0.9999">>,
  <<<<154, 153, 153, 153, 153, 153, 241, 63>>, "1.1">>,
  <<<<154, 153, 153, 153, 153, 153, 241, 191>>, "-1.1">>,
  <<<<16, 16, 16, 16, 16, 16, 112, 63>>, "0.00392156862745098">>,
  <<<<16, 16, 16, 16, 16, 16, 112, 191>>, "-0.00392156862745098">>,
  <<<<16, 16, 16, 16, 16, 16, 224, 63>>, "0.5019607843137255">>,
  <<<<16, 16, 16, 16, 16, 16, 224, 191>>, "-0.5019607843137255">>,
  <<<<224, 223, 223, 223, 223, 223, 239, 63>>, "0.996078431372549">>,
  <<<<224, 223, 223, 223, 223, 223, 239, 191>>, "-0.996078431372549">>,
  <<<<123, 20, 174, 71, 225, 122, 132, 63>>, "0.01">>,
  <<<<123, 20, 174, 71, 225, 122, 132, 191>>, "-0.01">>,
  <<<<252, 169, 241, 210, 77, 98, 80, 63>>, "0.001">>,
  <<<<252, 169, 241, 210, 77, 98, 80, 191>>, "-0.001">>,
  <<<<45, 67, 28, 235, 226, 54, 26, 63>>, "0.0001">>,
  <<<<45, 67, 28, 235, 226, 54, 26, 191>>, "-0.0001">>,
  <<<<241, 104, 227, 136, 181, 248, 228, 62>>, "0.00001">>,
  <<<<241, 104, 227, 136, 181, 248, 228, 190>>, "-0.00001">>,
  <<<<141, 237, 181, 160, 247, 198, 176, 62>>, "0.000001">>,
  <<<<141, 237, 181, 160, 247, 198, 176, 190>>, "-0.000001">>,
  <<<<72, 175, 188, 154, 242, 215, 122, 62>>, "0.0000001">>,
  <<<<72, 175, 188, 154, 242, 215, 122, 190>>, "-0.0000001">>,
  <<<<58, 140, 48, 226, 142, 121, 69, 62>>, "0.00000001">>,
  <<<<58, 140, 48, 226, 142, 121, 69, 190>>, "-0.00000001">>,
  <<<<149, 214, 38, 232, 11, 46, 17, 62>>, "0.000000001">>,
  <<<<149, 214, 38, 232, 11, 46, 17, 190>>, "-0.000000001">>,
  <<<<187, 189, 215, 217, 223, 124, 219, 61>>, "0.0000000001">>,
  <<<<187, 189, 215, 217, 223, 124, 219, 189>>, "-0.0000000001">>,
  <<<<17, 234, 45, 129, 153, 151, 113, 61>>, "0.000000000001">>,
  <<<<17, 234, 45, 129, 153, 151, 113, 189>>, "-0.000000000001">>,
  <<<<35, 66, 146, 12, 161, 156, 199, 59>>, "0.00000000000000000001">>,
  <<<<35, 66, 146, 12, 161, 156, 199, 187>>, "-0.00000000000000000001">>,
  <<<<160, 194, 235, 254, 75, 72, 180, 57>>, "0.000000000000000000000000000001">>,
  <<<<160, 194, 235, 254, 75, 72, 180, 185>>, "-0.000000000000000000000000000001">>,
  <<<<228, 120, 170, 157, 251, 56, 11, 56>>, "0.00000000000000000000000000000000000001">>,
  <<<<228, 120, 170, 157, 251, 56, 11, 184>>, "-0.00000000000000000000000000000000000001">>,
  <<<<0, 0, 0, 32, 95, 160, 2, 66>>, "10000000000">>,
  <<<<0, 0, 0, 32, 95, 160, 2, 194>>, "-10000000000">>,
  <<<<64, 140, 181, 120, 29, 175, 21, 68>>, "100000000000000000000">>,
  <<<<64, 140, 181, 120, 29, 175, 21, 196>>, "-100000000000000000000">>,
  <<<<234, 140, 160, 57, 89, 62, 41, 70>>, "1000000000000000000000000000000">>,
  <<<<234, 140, 160, 57, 89, 62, 41, 198>>, "-1000000000000000000000000000000">>,
  <<<<177, 161, 22, 42, 211, 206, 210, 71>>, "100000000000000000000000000000000000000">>,
  <<<<177, 161, 22, 42, 211, 206, 210, 199>>, "-100000000000000000000000000000000000000">>,
  <<<<0, 0, 0, 0, 0, 0, 128, 62>>, "0.00000011920928955078125">>,
  <<<<0, 0, 0, 0, 0, 0, 128, 190>>, "-0.00000011920928955078125">>,
  <<<<0, 0, 0, 0, 0, 0, 112, 62>>, "0.00000005960464477539063">>,
  <<<<0, 0, 0, 0, 0, 0, 112, 190>>, "-0.00000005960464477539063">>,
  <<<<0, 0, 0, 0, 0, 0, 176, 60>>, "0.0000000000000002220446049250313">>,
  <<<<0, 0, 0, 0, 0, 0, 176, 188>>, "-0.0000000000000002220446049250313">>,
  <<<<0, 0, 0, 0, 0, 0, 16, 56>>, "0.000000000000000000000000000000000000011754943508222875">>,
  <<<<0, 0, 0, 0, 0, 0, 16, 184>>, "-0.000000000000000000000000000000000000011754943508222875">>,
  <<<<0, 0, 0, 0, 0, 0, 0, 56>>, "0.000000000000000000000000000000000000005877471754111438">>,
  <<<<0, 0, 0, 0, 0, 0, 0, 184>>, "-0.000000000000000000000000000000000000005877471754111438">>,
  <<<<255, 255, 255, 255, 255, 255, 239, 63>>, "0.9999999999999999">>,
  <<<<1, 0, 0, 0, 0, 0, 240, 63>>, "1.0000000000000002">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 127>>, "inf">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 255>>, "-inf">>,
  <<<<0, 0, 0, 0, 0, 0, 248, 127>>, "NaN">>,
  <<<<0, 0, 0, 0, 0, 0, 248, 255>>, "NaN">>,
  <<<<1, 0, 0, 0, 0, 0, 240, 127>>, "NaN">>,
  <<<<255, 255, 255, 255, 255, 255, 255, 127>>, "NaN">>,
  <<<<255, 255, 255, 255, 255, 255, 255, 255>>, "NaN">>,
  <<<<255, 255, 255, 255, 255, 127, 118, 64>>, "359.99999999999994">>,
  <<<<1, 0, 0, 0, 0, 128, 118, 64>>, "360.00000000000006">>,
  <<<<0, 0, 0, 160, 153, 153, 185, 63>>, "0.10000000149011612">> >>
NumI(w) == CASE w = 1 -> NumI1 [] w = 2 -> NumI2 [] w = 4 -> NumI4 [] w = 8 -> NumI8
NumF(w) == IF w = 4 THEN NumF4 ELSE NumF8
=============================================================================
