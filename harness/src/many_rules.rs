//! Written by tools/mkmanyrules.py.
use aoc_parse::{parser, prelude::*};
type String = std::string::String;

pub fn rules_40() -> impl Parser<Output = (usize, String)> {
    parser!(
        rule r0: usize = { "0." => 0, "x" v:r2 => v, "y" v:r0 => v };
        rule r1: String = { "1." => "1".to_string(), "x" v:r3 => v, "y" v:r1 => v };
        rule r2: usize = { "2." => 2, "x" v:r4 => v, "y" v:r0 => v };
        rule r3: String = { "3." => "3".to_string(), "x" v:r5 => v, "y" v:r1 => v };
        rule r4: usize = { "4." => 4, "x" v:r6 => v, "y" v:r2 => v };
        rule r5: String = { "5." => "5".to_string(), "x" v:r7 => v, "y" v:r3 => v };
        rule r6: usize = { "6." => 6, "x" v:r8 => v, "y" v:r2 => v };
        rule r7: String = { "7." => "7".to_string(), "x" v:r9 => v, "y" v:r3 => v };
        rule r8: usize = { "8." => 8, "x" v:r10 => v, "y" v:r4 => v };
        rule r9: String = { "9." => "9".to_string(), "x" v:r11 => v, "y" v:r5 => v };
        rule r10: usize = { "10." => 10, "x" v:r12 => v, "y" v:r4 => v };
        rule r11: String = { "11." => "11".to_string(), "x" v:r13 => v, "y" v:r5 => v };
        rule r12: usize = { "12." => 12, "x" v:r14 => v, "y" v:r6 => v };
        rule r13: String = { "13." => "13".to_string(), "x" v:r15 => v, "y" v:r7 => v };
        rule r14: usize = { "14." => 14, "x" v:r16 => v, "y" v:r6 => v };
        rule r15: String = { "15." => "15".to_string(), "x" v:r17 => v, "y" v:r7 => v };
        rule r16: usize = { "16." => 16, "x" v:r18 => v, "y" v:r8 => v };
        rule r17: String = { "17." => "17".to_string(), "x" v:r19 => v, "y" v:r9 => v };
        rule r18: usize = { "18." => 18, "x" v:r20 => v, "y" v:r8 => v };
        rule r19: String = { "19." => "19".to_string(), "x" v:r21 => v, "y" v:r9 => v };
        rule r20: usize = { "20." => 20, "x" v:r22 => v, "y" v:r10 => v };
        rule r21: String = { "21." => "21".to_string(), "x" v:r23 => v, "y" v:r11 => v };
        rule r22: usize = { "22." => 22, "x" v:r24 => v, "y" v:r10 => v };
        rule r23: String = { "23." => "23".to_string(), "x" v:r25 => v, "y" v:r11 => v };
        rule r24: usize = { "24." => 24, "x" v:r26 => v, "y" v:r12 => v };
        rule r25: String = { "25." => "25".to_string(), "x" v:r27 => v, "y" v:r13 => v };
        rule r26: usize = { "26." => 26, "x" v:r28 => v, "y" v:r12 => v };
        rule r27: String = { "27." => "27".to_string(), "x" v:r29 => v, "y" v:r13 => v };
        rule r28: usize = { "28." => 28, "x" v:r30 => v, "y" v:r14 => v };
        rule r29: String = { "29." => "29".to_string(), "x" v:r31 => v, "y" v:r15 => v };
        rule r30: usize = { "30." => 30, "x" v:r32 => v, "y" v:r14 => v };
        rule r31: String = { "31." => "31".to_string(), "x" v:r33 => v, "y" v:r15 => v };
        rule r32: usize = { "32." => 32, "x" v:r34 => v, "y" v:r16 => v };
        rule r33: String = { "33." => "33".to_string(), "x" v:r35 => v, "y" v:r17 => v };
        rule r34: usize = { "34." => 34, "x" v:r36 => v, "y" v:r16 => v };
        rule r35: String = { "35." => "35".to_string(), "x" v:r37 => v, "y" v:r17 => v };
        rule r36: usize = { "36." => 36, "x" v:r38 => v, "y" v:r18 => v };
        rule r37: String = { "37." => "37".to_string(), "x" v:r39 => v, "y" v:r19 => v };
        rule r38: usize = { "38." => 38, "x" v:r0 => v, "y" v:r18 => v };
        rule r39: String = { "39." => "39".to_string(), "x" v:r1 => v, "y" v:r19 => v };
        r0 "/" r1
    )
}

pub fn rules_300() -> impl Parser<Output = (usize, String)> {
    parser!(
        rule r0: usize = { "0." => 0, "x" v:r2 => v, "y" v:r0 => v };
        rule r1: String = { "1." => "1".to_string(), "x" v:r3 => v, "y" v:r1 => v };
        rule r2: usize = { "2." => 2, "x" v:r4 => v, "y" v:r0 => v };
        rule r3: String = { "3." => "3".to_string(), "x" v:r5 => v, "y" v:r1 => v };
        rule r4: usize = { "4." => 4, "x" v:r6 => v, "y" v:r2 => v };
        rule r5: String = { "5." => "5".to_string(), "x" v:r7 => v, "y" v:r3 => v };
        rule r6: usize = { "6." => 6, "x" v:r8 => v, "y" v:r2 => v };
        rule r7: String = { "7." => "7".to_string(), "x" v:r9 => v, "y" v:r3 => v };
        rule r8: usize = { "8." => 8, "x" v:r10 => v, "y" v:r4 => v };
        rule r9: String = { "9." => "9".to_string(), "x" v:r11 => v, "y" v:r5 => v };
        rule r10: usize = { "10." => 10, "x" v:r12 => v, "y" v:r4 => v };
        rule r11: String = { "11." => "11".to_string(), "x" v:r13 => v, "y" v:r5 => v };
        rule r12: usize = { "12." => 12, "x" v:r14 => v, "y" v:r6 => v };
        rule r13: String = { "13." => "13".to_string(), "x" v:r15 => v, "y" v:r7 => v };
        rule r14: usize = { "14." => 14, "x" v:r16 => v, "y" v:r6 => v };
        rule r15: String = { "15." => "15".to_string(), "x" v:r17 => v, "y" v:r7 => v };
        rule r16: usize = { "16." => 16, "x" v:r18 => v, "y" v:r8 => v };
        rule r17: String = { "17." => "17".to_string(), "x" v:r19 => v, "y" v:r9 => v };
        rule r18: usize = { "18." => 18, "x" v:r20 => v, "y" v:r8 => v };
        rule r19: String = { "19." => "19".to_string(), "x" v:r21 => v, "y" v:r9 => v };
        rule r20: usize = { "20." => 20, "x" v:r22 => v, "y" v:r10 => v };
        rule r21: String = { "21." => "21".to_string(), "x" v:r23 => v, "y" v:r11 => v };
        rule r22: usize = { "22." => 22, "x" v:r24 => v, "y" v:r10 => v };
        rule r23: String = { "23." => "23".to_string(), "x" v:r25 => v, "y" v:r11 => v };
        rule r24: usize = { "24." => 24, "x" v:r26 => v, "y" v:r12 => v };
        rule r25: String = { "25." => "25".to_string(), "x" v:r27 => v, "y" v:r13 => v };
        rule r26: usize = { "26." => 26, "x" v:r28 => v, "y" v:r12 => v };
        rule r27: String = { "27." => "27".to_string(), "x" v:r29 => v, "y" v:r13 => v };
        rule r28: usize = { "28." => 28, "x" v:r30 => v, "y" v:r14 => v };
        rule r29: String = { "29." => "29".to_string(), "x" v:r31 => v, "y" v:r15 => v };
        rule r30: usize = { "30." => 30, "x" v:r32 => v, "y" v:r14 => v };
        rule r31: String = { "31." => "31".to_string(), "x" v:r33 => v, "y" v:r15 => v };
        rule r32: usize = { "32." => 32, "x" v:r34 => v, "y" v:r16 => v };
        rule r33: String = { "33." => "33".to_string(), "x" v:r35 => v, "y" v:r17 => v };
        rule r34: usize = { "34." => 34, "x" v:r36 => v, "y" v:r16 => v };
        rule r35: String = { "35." => "35".to_string(), "x" v:r37 => v, "y" v:r17 => v };
        rule r36: usize = { "36." => 36, "x" v:r38 => v, "y" v:r18 => v };
        rule r37: String = { "37." => "37".to_string(), "x" v:r39 => v, "y" v:r19 => v };
        rule r38: usize = { "38." => 38, "x" v:r40 => v, "y" v:r18 => v };
        rule r39: String = { "39." => "39".to_string(), "x" v:r41 => v, "y" v:r19 => v };
        rule r40: usize = { "40." => 40, "x" v:r42 => v, "y" v:r20 => v };
        rule r41: String = { "41." => "41".to_string(), "x" v:r43 => v, "y" v:r21 => v };
        rule r42: usize = { "42." => 42, "x" v:r44 => v, "y" v:r20 => v };
        rule r43: String = { "43." => "43".to_string(), "x" v:r45 => v, "y" v:r21 => v };
        rule r44: usize = { "44." => 44, "x" v:r46 => v, "y" v:r22 => v };
        rule r45: String = { "45." => "45".to_string(), "x" v:r47 => v, "y" v:r23 => v };
        rule r46: usize = { "46." => 46, "x" v:r48 => v, "y" v:r22 => v };
        rule r47: String = { "47." => "47".to_string(), "x" v:r49 => v, "y" v:r23 => v };
        rule r48: usize = { "48." => 48, "x" v:r50 => v, "y" v:r24 => v };
        rule r49: String = { "49." => "49".to_string(), "x" v:r51 => v, "y" v:r25 => v };
        rule r50: usize = { "50." => 50, "x" v:r52 => v, "y" v:r24 => v };
        rule r51: String = { "51." => "51".to_string(), "x" v:r53 => v, "y" v:r25 => v };
        rule r52: usize = { "52." => 52, "x" v:r54 => v, "y" v:r26 => v };
        rule r53: String = { "53." => "53".to_string(), "x" v:r55 => v, "y" v:r27 => v };
        rule r54: usize = { "54." => 54, "x" v:r56 => v, "y" v:r26 => v };
        rule r55: String = { "55." => "55".to_string(), "x" v:r57 => v, "y" v:r27 => v };
        rule r56: usize = { "56." => 56, "x" v:r58 => v, "y" v:r28 => v };
        rule r57: String = { "57." => "57".to_string(), "x" v:r59 => v, "y" v:r29 => v };
        rule r58: usize = { "58." => 58, "x" v:r60 => v, "y" v:r28 => v };
        rule r59: String = { "59." => "59".to_string(), "x" v:r61 => v, "y" v:r29 => v };
        rule r60: usize = { "60." => 60, "x" v:r62 => v, "y" v:r30 => v };
        rule r61: String = { "61." => "61".to_string(), "x" v:r63 => v, "y" v:r31 => v };
        rule r62: usize = { "62." => 62, "x" v:r64 => v, "y" v:r30 => v };
        rule r63: String = { "63." => "63".to_string(), "x" v:r65 => v, "y" v:r31 => v };
        rule r64: usize = { "64." => 64, "x" v:r66 => v, "y" v:r32 => v };
        rule r65: String = { "65." => "65".to_string(), "x" v:r67 => v, "y" v:r33 => v };
        rule r66: usize = { "66." => 66, "x" v:r68 => v, "y" v:r32 => v };
        rule r67: String = { "67." => "67".to_string(), "x" v:r69 => v, "y" v:r33 => v };
        rule r68: usize = { "68." => 68, "x" v:r70 => v, "y" v:r34 => v };
        rule r69: String = { "69." => "69".to_string(), "x" v:r71 => v, "y" v:r35 => v };
        rule r70: usize = { "70." => 70, "x" v:r72 => v, "y" v:r34 => v };
        rule r71: String = { "71." => "71".to_string(), "x" v:r73 => v, "y" v:r35 => v };
        rule r72: usize = { "72." => 72, "x" v:r74 => v, "y" v:r36 => v };
        rule r73: String = { "73." => "73".to_string(), "x" v:r75 => v, "y" v:r37 => v };
        rule r74: usize = { "74." => 74, "x" v:r76 => v, "y" v:r36 => v };
        rule r75: String = { "75." => "75".to_string(), "x" v:r77 => v, "y" v:r37 => v };
        rule r76: usize = { "76." => 76, "x" v:r78 => v, "y" v:r38 => v };
        rule r77: String = { "77." => "77".to_string(), "x" v:r79 => v, "y" v:r39 => v };
        rule r78: usize = { "78." => 78, "x" v:r80 => v, "y" v:r38 => v };
        rule r79: String = { "79." => "79".to_string(), "x" v:r81 => v, "y" v:r39 => v };
        rule r80: usize = { "80." => 80, "x" v:r82 => v, "y" v:r40 => v };
        rule r81: String = { "81." => "81".to_string(), "x" v:r83 => v, "y" v:r41 => v };
        rule r82: usize = { "82." => 82, "x" v:r84 => v, "y" v:r40 => v };
        rule r83: String = { "83." => "83".to_string(), "x" v:r85 => v, "y" v:r41 => v };
        rule r84: usize = { "84." => 84, "x" v:r86 => v, "y" v:r42 => v };
        rule r85: String = { "85." => "85".to_string(), "x" v:r87 => v, "y" v:r43 => v };
        rule r86: usize = { "86." => 86, "x" v:r88 => v, "y" v:r42 => v };
        rule r87: String = { "87." => "87".to_string(), "x" v:r89 => v, "y" v:r43 => v };
        rule r88: usize = { "88." => 88, "x" v:r90 => v, "y" v:r44 => v };
        rule r89: String = { "89." => "89".to_string(), "x" v:r91 => v, "y" v:r45 => v };
        rule r90: usize = { "90." => 90, "x" v:r92 => v, "y" v:r44 => v };
        rule r91: String = { "91." => "91".to_string(), "x" v:r93 => v, "y" v:r45 => v };
        rule r92: usize = { "92." => 92, "x" v:r94 => v, "y" v:r46 => v };
        rule r93: String = { "93." => "93".to_string(), "x" v:r95 => v, "y" v:r47 => v };
        rule r94: usize = { "94." => 94, "x" v:r96 => v, "y" v:r46 => v };
        rule r95: String = { "95." => "95".to_string(), "x" v:r97 => v, "y" v:r47 => v };
        rule r96: usize = { "96." => 96, "x" v:r98 => v, "y" v:r48 => v };
        rule r97: String = { "97." => "97".to_string(), "x" v:r99 => v, "y" v:r49 => v };
        rule r98: usize = { "98." => 98, "x" v:r100 => v, "y" v:r48 => v };
        rule r99: String = { "99." => "99".to_string(), "x" v:r101 => v, "y" v:r49 => v };
        rule r100: usize = { "100." => 100, "x" v:r102 => v, "y" v:r50 => v };
        rule r101: String = { "101." => "101".to_string(), "x" v:r103 => v, "y" v:r51 => v };
        rule r102: usize = { "102." => 102, "x" v:r104 => v, "y" v:r50 => v };
        rule r103: String = { "103." => "103".to_string(), "x" v:r105 => v, "y" v:r51 => v };
        rule r104: usize = { "104." => 104, "x" v:r106 => v, "y" v:r52 => v };
        rule r105: String = { "105." => "105".to_string(), "x" v:r107 => v, "y" v:r53 => v };
        rule r106: usize = { "106." => 106, "x" v:r108 => v, "y" v:r52 => v };
        rule r107: String = { "107." => "107".to_string(), "x" v:r109 => v, "y" v:r53 => v };
        rule r108: usize = { "108." => 108, "x" v:r110 => v, "y" v:r54 => v };
        rule r109: String = { "109." => "109".to_string(), "x" v:r111 => v, "y" v:r55 => v };
        rule r110: usize = { "110." => 110, "x" v:r112 => v, "y" v:r54 => v };
        rule r111: String = { "111." => "111".to_string(), "x" v:r113 => v, "y" v:r55 => v };
        rule r112: usize = { "112." => 112, "x" v:r114 => v, "y" v:r56 => v };
        rule r113: String = { "113." => "113".to_string(), "x" v:r115 => v, "y" v:r57 => v };
        rule r114: usize = { "114." => 114, "x" v:r116 => v, "y" v:r56 => v };
        rule r115: String = { "115." => "115".to_string(), "x" v:r117 => v, "y" v:r57 => v };
        rule r116: usize = { "116." => 116, "x" v:r118 => v, "y" v:r58 => v };
        rule r117: String = { "117." => "117".to_string(), "x" v:r119 => v, "y" v:r59 => v };
        rule r118: usize = { "118." => 118, "x" v:r120 => v, "y" v:r58 => v };
        rule r119: String = { "119." => "119".to_string(), "x" v:r121 => v, "y" v:r59 => v };
        rule r120: usize = { "120." => 120, "x" v:r122 => v, "y" v:r60 => v };
        rule r121: String = { "121." => "121".to_string(), "x" v:r123 => v, "y" v:r61 => v };
        rule r122: usize = { "122." => 122, "x" v:r124 => v, "y" v:r60 => v };
        rule r123: String = { "123." => "123".to_string(), "x" v:r125 => v, "y" v:r61 => v };
        rule r124: usize = { "124." => 124, "x" v:r126 => v, "y" v:r62 => v };
        rule r125: String = { "125." => "125".to_string(), "x" v:r127 => v, "y" v:r63 => v };
        rule r126: usize = { "126." => 126, "x" v:r128 => v, "y" v:r62 => v };
        rule r127: String = { "127." => "127".to_string(), "x" v:r129 => v, "y" v:r63 => v };
        rule r128: usize = { "128." => 128, "x" v:r130 => v, "y" v:r64 => v };
        rule r129: String = { "129." => "129".to_string(), "x" v:r131 => v, "y" v:r65 => v };
        rule r130: usize = { "130." => 130, "x" v:r132 => v, "y" v:r64 => v };
        rule r131: String = { "131." => "131".to_string(), "x" v:r133 => v, "y" v:r65 => v };
        rule r132: usize = { "132." => 132, "x" v:r134 => v, "y" v:r66 => v };
        rule r133: String = { "133." => "133".to_string(), "x" v:r135 => v, "y" v:r67 => v };
        rule r134: usize = { "134." => 134, "x" v:r136 => v, "y" v:r66 => v };
        rule r135: String = { "135." => "135".to_string(), "x" v:r137 => v, "y" v:r67 => v };
        rule r136: usize = { "136." => 136, "x" v:r138 => v, "y" v:r68 => v };
        rule r137: String = { "137." => "137".to_string(), "x" v:r139 => v, "y" v:r69 => v };
        rule r138: usize = { "138." => 138, "x" v:r140 => v, "y" v:r68 => v };
        rule r139: String = { "139." => "139".to_string(), "x" v:r141 => v, "y" v:r69 => v };
        rule r140: usize = { "140." => 140, "x" v:r142 => v, "y" v:r70 => v };
        rule r141: String = { "141." => "141".to_string(), "x" v:r143 => v, "y" v:r71 => v };
        rule r142: usize = { "142." => 142, "x" v:r144 => v, "y" v:r70 => v };
        rule r143: String = { "143." => "143".to_string(), "x" v:r145 => v, "y" v:r71 => v };
        rule r144: usize = { "144." => 144, "x" v:r146 => v, "y" v:r72 => v };
        rule r145: String = { "145." => "145".to_string(), "x" v:r147 => v, "y" v:r73 => v };
        rule r146: usize = { "146." => 146, "x" v:r148 => v, "y" v:r72 => v };
        rule r147: String = { "147." => "147".to_string(), "x" v:r149 => v, "y" v:r73 => v };
        rule r148: usize = { "148." => 148, "x" v:r150 => v, "y" v:r74 => v };
        rule r149: String = { "149." => "149".to_string(), "x" v:r151 => v, "y" v:r75 => v };
        rule r150: usize = { "150." => 150, "x" v:r152 => v, "y" v:r74 => v };
        rule r151: String = { "151." => "151".to_string(), "x" v:r153 => v, "y" v:r75 => v };
        rule r152: usize = { "152." => 152, "x" v:r154 => v, "y" v:r76 => v };
        rule r153: String = { "153." => "153".to_string(), "x" v:r155 => v, "y" v:r77 => v };
        rule r154: usize = { "154." => 154, "x" v:r156 => v, "y" v:r76 => v };
        rule r155: String = { "155." => "155".to_string(), "x" v:r157 => v, "y" v:r77 => v };
        rule r156: usize = { "156." => 156, "x" v:r158 => v, "y" v:r78 => v };
        rule r157: String = { "157." => "157".to_string(), "x" v:r159 => v, "y" v:r79 => v };
        rule r158: usize = { "158." => 158, "x" v:r160 => v, "y" v:r78 => v };
        rule r159: String = { "159." => "159".to_string(), "x" v:r161 => v, "y" v:r79 => v };
        rule r160: usize = { "160." => 160, "x" v:r162 => v, "y" v:r80 => v };
        rule r161: String = { "161." => "161".to_string(), "x" v:r163 => v, "y" v:r81 => v };
        rule r162: usize = { "162." => 162, "x" v:r164 => v, "y" v:r80 => v };
        rule r163: String = { "163." => "163".to_string(), "x" v:r165 => v, "y" v:r81 => v };
        rule r164: usize = { "164." => 164, "x" v:r166 => v, "y" v:r82 => v };
        rule r165: String = { "165." => "165".to_string(), "x" v:r167 => v, "y" v:r83 => v };
        rule r166: usize = { "166." => 166, "x" v:r168 => v, "y" v:r82 => v };
        rule r167: String = { "167." => "167".to_string(), "x" v:r169 => v, "y" v:r83 => v };
        rule r168: usize = { "168." => 168, "x" v:r170 => v, "y" v:r84 => v };
        rule r169: String = { "169." => "169".to_string(), "x" v:r171 => v, "y" v:r85 => v };
        rule r170: usize = { "170." => 170, "x" v:r172 => v, "y" v:r84 => v };
        rule r171: String = { "171." => "171".to_string(), "x" v:r173 => v, "y" v:r85 => v };
        rule r172: usize = { "172." => 172, "x" v:r174 => v, "y" v:r86 => v };
        rule r173: String = { "173." => "173".to_string(), "x" v:r175 => v, "y" v:r87 => v };
        rule r174: usize = { "174." => 174, "x" v:r176 => v, "y" v:r86 => v };
        rule r175: String = { "175." => "175".to_string(), "x" v:r177 => v, "y" v:r87 => v };
        rule r176: usize = { "176." => 176, "x" v:r178 => v, "y" v:r88 => v };
        rule r177: String = { "177." => "177".to_string(), "x" v:r179 => v, "y" v:r89 => v };
        rule r178: usize = { "178." => 178, "x" v:r180 => v, "y" v:r88 => v };
        rule r179: String = { "179." => "179".to_string(), "x" v:r181 => v, "y" v:r89 => v };
        rule r180: usize = { "180." => 180, "x" v:r182 => v, "y" v:r90 => v };
        rule r181: String = { "181." => "181".to_string(), "x" v:r183 => v, "y" v:r91 => v };
        rule r182: usize = { "182." => 182, "x" v:r184 => v, "y" v:r90 => v };
        rule r183: String = { "183." => "183".to_string(), "x" v:r185 => v, "y" v:r91 => v };
        rule r184: usize = { "184." => 184, "x" v:r186 => v, "y" v:r92 => v };
        rule r185: String = { "185." => "185".to_string(), "x" v:r187 => v, "y" v:r93 => v };
        rule r186: usize = { "186." => 186, "x" v:r188 => v, "y" v:r92 => v };
        rule r187: String = { "187." => "187".to_string(), "x" v:r189 => v, "y" v:r93 => v };
        rule r188: usize = { "188." => 188, "x" v:r190 => v, "y" v:r94 => v };
        rule r189: String = { "189." => "189".to_string(), "x" v:r191 => v, "y" v:r95 => v };
        rule r190: usize = { "190." => 190, "x" v:r192 => v, "y" v:r94 => v };
        rule r191: String = { "191." => "191".to_string(), "x" v:r193 => v, "y" v:r95 => v };
        rule r192: usize = { "192." => 192, "x" v:r194 => v, "y" v:r96 => v };
        rule r193: String = { "193." => "193".to_string(), "x" v:r195 => v, "y" v:r97 => v };
        rule r194: usize = { "194." => 194, "x" v:r196 => v, "y" v:r96 => v };
        rule r195: String = { "195." => "195".to_string(), "x" v:r197 => v, "y" v:r97 => v };
        rule r196: usize = { "196." => 196, "x" v:r198 => v, "y" v:r98 => v };
        rule r197: String = { "197." => "197".to_string(), "x" v:r199 => v, "y" v:r99 => v };
        rule r198: usize = { "198." => 198, "x" v:r200 => v, "y" v:r98 => v };
        rule r199: String = { "199." => "199".to_string(), "x" v:r201 => v, "y" v:r99 => v };
        rule r200: usize = { "200." => 200, "x" v:r202 => v, "y" v:r100 => v };
        rule r201: String = { "201." => "201".to_string(), "x" v:r203 => v, "y" v:r101 => v };
        rule r202: usize = { "202." => 202, "x" v:r204 => v, "y" v:r100 => v };
        rule r203: String = { "203." => "203".to_string(), "x" v:r205 => v, "y" v:r101 => v };
        rule r204: usize = { "204." => 204, "x" v:r206 => v, "y" v:r102 => v };
        rule r205: String = { "205." => "205".to_string(), "x" v:r207 => v, "y" v:r103 => v };
        rule r206: usize = { "206." => 206, "x" v:r208 => v, "y" v:r102 => v };
        rule r207: String = { "207." => "207".to_string(), "x" v:r209 => v, "y" v:r103 => v };
        rule r208: usize = { "208." => 208, "x" v:r210 => v, "y" v:r104 => v };
        rule r209: String = { "209." => "209".to_string(), "x" v:r211 => v, "y" v:r105 => v };
        rule r210: usize = { "210." => 210, "x" v:r212 => v, "y" v:r104 => v };
        rule r211: String = { "211." => "211".to_string(), "x" v:r213 => v, "y" v:r105 => v };
        rule r212: usize = { "212." => 212, "x" v:r214 => v, "y" v:r106 => v };
        rule r213: String = { "213." => "213".to_string(), "x" v:r215 => v, "y" v:r107 => v };
        rule r214: usize = { "214." => 214, "x" v:r216 => v, "y" v:r106 => v };
        rule r215: String = { "215." => "215".to_string(), "x" v:r217 => v, "y" v:r107 => v };
        rule r216: usize = { "216." => 216, "x" v:r218 => v, "y" v:r108 => v };
        rule r217: String = { "217." => "217".to_string(), "x" v:r219 => v, "y" v:r109 => v };
        rule r218: usize = { "218." => 218, "x" v:r220 => v, "y" v:r108 => v };
        rule r219: String = { "219." => "219".to_string(), "x" v:r221 => v, "y" v:r109 => v };
        rule r220: usize = { "220." => 220, "x" v:r222 => v, "y" v:r110 => v };
        rule r221: String = { "221." => "221".to_string(), "x" v:r223 => v, "y" v:r111 => v };
        rule r222: usize = { "222." => 222, "x" v:r224 => v, "y" v:r110 => v };
        rule r223: String = { "223." => "223".to_string(), "x" v:r225 => v, "y" v:r111 => v };
        rule r224: usize = { "224." => 224, "x" v:r226 => v, "y" v:r112 => v };
        rule r225: String = { "225." => "225".to_string(), "x" v:r227 => v, "y" v:r113 => v };
        rule r226: usize = { "226." => 226, "x" v:r228 => v, "y" v:r112 => v };
        rule r227: String = { "227." => "227".to_string(), "x" v:r229 => v, "y" v:r113 => v };
        rule r228: usize = { "228." => 228, "x" v:r230 => v, "y" v:r114 => v };
        rule r229: String = { "229." => "229".to_string(), "x" v:r231 => v, "y" v:r115 => v };
        rule r230: usize = { "230." => 230, "x" v:r232 => v, "y" v:r114 => v };
        rule r231: String = { "231." => "231".to_string(), "x" v:r233 => v, "y" v:r115 => v };
        rule r232: usize = { "232." => 232, "x" v:r234 => v, "y" v:r116 => v };
        rule r233: String = { "233." => "233".to_string(), "x" v:r235 => v, "y" v:r117 => v };
        rule r234: usize = { "234." => 234, "x" v:r236 => v, "y" v:r116 => v };
        rule r235: String = { "235." => "235".to_string(), "x" v:r237 => v, "y" v:r117 => v };
        rule r236: usize = { "236." => 236, "x" v:r238 => v, "y" v:r118 => v };
        rule r237: String = { "237." => "237".to_string(), "x" v:r239 => v, "y" v:r119 => v };
        rule r238: usize = { "238." => 238, "x" v:r240 => v, "y" v:r118 => v };
        rule r239: String = { "239." => "239".to_string(), "x" v:r241 => v, "y" v:r119 => v };
        rule r240: usize = { "240." => 240, "x" v:r242 => v, "y" v:r120 => v };
        rule r241: String = { "241." => "241".to_string(), "x" v:r243 => v, "y" v:r121 => v };
        rule r242: usize = { "242." => 242, "x" v:r244 => v, "y" v:r120 => v };
        rule r243: String = { "243." => "243".to_string(), "x" v:r245 => v, "y" v:r121 => v };
        rule r244: usize = { "244." => 244, "x" v:r246 => v, "y" v:r122 => v };
        rule r245: String = { "245." => "245".to_string(), "x" v:r247 => v, "y" v:r123 => v };
        rule r246: usize = { "246." => 246, "x" v:r248 => v, "y" v:r122 => v };
        rule r247: String = { "247." => "247".to_string(), "x" v:r249 => v, "y" v:r123 => v };
        rule r248: usize = { "248." => 248, "x" v:r250 => v, "y" v:r124 => v };
        rule r249: String = { "249." => "249".to_string(), "x" v:r251 => v, "y" v:r125 => v };
        rule r250: usize = { "250." => 250, "x" v:r252 => v, "y" v:r124 => v };
        rule r251: String = { "251." => "251".to_string(), "x" v:r253 => v, "y" v:r125 => v };
        rule r252: usize = { "252." => 252, "x" v:r254 => v, "y" v:r126 => v };
        rule r253: String = { "253." => "253".to_string(), "x" v:r255 => v, "y" v:r127 => v };
        rule r254: usize = { "254." => 254, "x" v:r256 => v, "y" v:r126 => v };
        rule r255: String = { "255." => "255".to_string(), "x" v:r257 => v, "y" v:r127 => v };
        rule r256: usize = { "256." => 256, "x" v:r258 => v, "y" v:r128 => v };
        rule r257: String = { "257." => "257".to_string(), "x" v:r259 => v, "y" v:r129 => v };
        rule r258: usize = { "258." => 258, "x" v:r260 => v, "y" v:r128 => v };
        rule r259: String = { "259." => "259".to_string(), "x" v:r261 => v, "y" v:r129 => v };
        rule r260: usize = { "260." => 260, "x" v:r262 => v, "y" v:r130 => v };
        rule r261: String = { "261." => "261".to_string(), "x" v:r263 => v, "y" v:r131 => v };
        rule r262: usize = { "262." => 262, "x" v:r264 => v, "y" v:r130 => v };
        rule r263: String = { "263." => "263".to_string(), "x" v:r265 => v, "y" v:r131 => v };
        rule r264: usize = { "264." => 264, "x" v:r266 => v, "y" v:r132 => v };
        rule r265: String = { "265." => "265".to_string(), "x" v:r267 => v, "y" v:r133 => v };
        rule r266: usize = { "266." => 266, "x" v:r268 => v, "y" v:r132 => v };
        rule r267: String = { "267." => "267".to_string(), "x" v:r269 => v, "y" v:r133 => v };
        rule r268: usize = { "268." => 268, "x" v:r270 => v, "y" v:r134 => v };
        rule r269: String = { "269." => "269".to_string(), "x" v:r271 => v, "y" v:r135 => v };
        rule r270: usize = { "270." => 270, "x" v:r272 => v, "y" v:r134 => v };
        rule r271: String = { "271." => "271".to_string(), "x" v:r273 => v, "y" v:r135 => v };
        rule r272: usize = { "272." => 272, "x" v:r274 => v, "y" v:r136 => v };
        rule r273: String = { "273." => "273".to_string(), "x" v:r275 => v, "y" v:r137 => v };
        rule r274: usize = { "274." => 274, "x" v:r276 => v, "y" v:r136 => v };
        rule r275: String = { "275." => "275".to_string(), "x" v:r277 => v, "y" v:r137 => v };
        rule r276: usize = { "276." => 276, "x" v:r278 => v, "y" v:r138 => v };
        rule r277: String = { "277." => "277".to_string(), "x" v:r279 => v, "y" v:r139 => v };
        rule r278: usize = { "278." => 278, "x" v:r280 => v, "y" v:r138 => v };
        rule r279: String = { "279." => "279".to_string(), "x" v:r281 => v, "y" v:r139 => v };
        rule r280: usize = { "280." => 280, "x" v:r282 => v, "y" v:r140 => v };
        rule r281: String = { "281." => "281".to_string(), "x" v:r283 => v, "y" v:r141 => v };
        rule r282: usize = { "282." => 282, "x" v:r284 => v, "y" v:r140 => v };
        rule r283: String = { "283." => "283".to_string(), "x" v:r285 => v, "y" v:r141 => v };
        rule r284: usize = { "284." => 284, "x" v:r286 => v, "y" v:r142 => v };
        rule r285: String = { "285." => "285".to_string(), "x" v:r287 => v, "y" v:r143 => v };
        rule r286: usize = { "286." => 286, "x" v:r288 => v, "y" v:r142 => v };
        rule r287: String = { "287." => "287".to_string(), "x" v:r289 => v, "y" v:r143 => v };
        rule r288: usize = { "288." => 288, "x" v:r290 => v, "y" v:r144 => v };
        rule r289: String = { "289." => "289".to_string(), "x" v:r291 => v, "y" v:r145 => v };
        rule r290: usize = { "290." => 290, "x" v:r292 => v, "y" v:r144 => v };
        rule r291: String = { "291." => "291".to_string(), "x" v:r293 => v, "y" v:r145 => v };
        rule r292: usize = { "292." => 292, "x" v:r294 => v, "y" v:r146 => v };
        rule r293: String = { "293." => "293".to_string(), "x" v:r295 => v, "y" v:r147 => v };
        rule r294: usize = { "294." => 294, "x" v:r296 => v, "y" v:r146 => v };
        rule r295: String = { "295." => "295".to_string(), "x" v:r297 => v, "y" v:r147 => v };
        rule r296: usize = { "296." => 296, "x" v:r298 => v, "y" v:r148 => v };
        rule r297: String = { "297." => "297".to_string(), "x" v:r299 => v, "y" v:r149 => v };
        rule r298: usize = { "298." => 298, "x" v:r0 => v, "y" v:r148 => v };
        rule r299: String = { "299." => "299".to_string(), "x" v:r1 => v, "y" v:r149 => v };
        r0 "/" r1
    )
}
