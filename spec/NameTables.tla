----------------------------- MODULE NameTables -----------------------------
(* Written by tools/mknames.py: RFC 4518 section 2.2, RFC 3454 B.2, A.1, C.3,  *)
(* C.4, C.5, C.8, D.1, D.2 and the Unicode decompositions, compositions and    *)
(* combining classes, for the characters the name model is exercised with.     *)
EXTENDS Integers, Sequences
Dropped == {0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 127, 159, 173, 847, 1757, 1807, 6150, 6155, 6158, 8203, 8206, 8234, 8288, 8298, 65024, 65279, 65529, 65532, 119155, 119162, 917505, 917536, 917631}
Spaces == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8194, 8232, 8233, 8239, 8287, 12288}
(* RFC 3454 table B.2 and, for characters without an entry, themselves         *)
FoldTable == <<
  <<33, <<33>>>>, <<34, <<34>>>>, <<35, <<35>>>>, <<36, <<36>>>>, <<37, <<37>>>>, <<38, <<38>>>>, <<39, <<39>>>>, <<40, <<40>>>>, <<41, <<41>>>>, 
  <<42, <<42>>>>, <<43, <<43>>>>, <<44, <<44>>>>, <<45, <<45>>>>, <<46, <<46>>>>, <<47, <<47>>>>, <<48, <<48>>>>, <<49, <<49>>>>, <<50, <<50>>>>, 
  <<51, <<51>>>>, <<52, <<52>>>>, <<53, <<53>>>>, <<54, <<54>>>>, <<55, <<55>>>>, <<56, <<56>>>>, <<57, <<57>>>>, <<58, <<58>>>>, <<59, <<59>>>>, 
  <<60, <<60>>>>, <<61, <<61>>>>, <<62, <<62>>>>, <<63, <<63>>>>, <<64, <<64>>>>, <<65, <<97>>>>, <<66, <<98>>>>, <<67, <<99>>>>, <<68, <<100>>>>, 
  <<69, <<101>>>>, <<70, <<102>>>>, <<71, <<103>>>>, <<72, <<104>>>>, <<73, <<105>>>>, <<74, <<106>>>>, <<75, <<107>>>>, <<76, <<108>>>>, 
  <<77, <<109>>>>, <<78, <<110>>>>, <<79, <<111>>>>, <<80, <<112>>>>, <<81, <<113>>>>, <<82, <<114>>>>, <<83, <<115>>>>, <<84, <<116>>>>, 
  <<85, <<117>>>>, <<86, <<118>>>>, <<87, <<119>>>>, <<88, <<120>>>>, <<89, <<121>>>>, <<90, <<122>>>>, <<91, <<91>>>>, <<92, <<92>>>>, 
  <<93, <<93>>>>, <<94, <<94>>>>, <<95, <<95>>>>, <<96, <<96>>>>, <<97, <<97>>>>, <<98, <<98>>>>, <<99, <<99>>>>, <<100, <<100>>>>, <<101, <<101>>>>, 
  <<102, <<102>>>>, <<103, <<103>>>>, <<104, <<104>>>>, <<105, <<105>>>>, <<106, <<106>>>>, <<107, <<107>>>>, <<108, <<108>>>>, <<109, <<109>>>>, 
  <<110, <<110>>>>, <<111, <<111>>>>, <<112, <<112>>>>, <<113, <<113>>>>, <<114, <<114>>>>, <<115, <<115>>>>, <<116, <<116>>>>, <<117, <<117>>>>, 
  <<118, <<118>>>>, <<119, <<119>>>>, <<120, <<120>>>>, <<121, <<121>>>>, <<122, <<122>>>>, <<123, <<123>>>>, <<124, <<124>>>>, <<125, <<125>>>>, 
  <<126, <<126>>>>, <<168, <<168>>>>, <<170, <<170>>>>, <<178, <<178>>>>, <<180, <<180>>>>, <<181, <<956>>>>, <<189, <<189>>>>, <<197, <<229>>>>, 
  <<201, <<233>>>>, <<214, <<246>>>>, <<220, <<252>>>>, <<223, <<115, 115>>>>, <<229, <<229>>>>, <<233, <<233>>>>, <<246, <<246>>>>, 
  <<252, <<252>>>>, <<304, <<105, 775>>>>, <<305, <<305>>>>, <<329, <<700, 110>>>>, <<383, <<115>>>>, <<453, <<454>>>>, <<469, <<470>>>>, 
  <<545, <<545>>>>, <<769, <<769>>>>, <<772, <<772>>>>, <<776, <<776>>>>, <<807, <<807>>>>, <<832, <<832>>>>, <<914, <<946>>>>, <<931, <<963>>>>, 
  <<946, <<946>>>>, <<962, <<963>>>>, <<963, <<963>>>>, <<1045, <<1077>>>>, <<1048, <<1080>>>>, <<1050, <<1082>>>>, <<1052, <<1084>>>>, 
  <<1054, <<1086>>>>, <<1055, <<1087>>>>, <<1056, <<1088>>>>, <<1058, <<1090>>>>, <<1072, <<1072>>>>, <<1074, <<1074>>>>, <<1077, <<1077>>>>, 
  <<1080, <<1080>>>>, <<1082, <<1082>>>>, <<1084, <<1084>>>>, <<1086, <<1086>>>>, <<1087, <<1087>>>>, <<1088, <<1088>>>>, <<1090, <<1090>>>>, 
  <<1488, <<1488>>>>, <<1489, <<1489>>>>, <<1575, <<1575>>>>, <<1632, <<1632>>>>, <<2307, <<2307>>>>, <<7835, <<7777>>>>, <<8413, <<8413>>>>, 
  <<8481, <<116, 101, 108>>>>, <<8482, <<116, 109>>>>, <<8486, <<969>>>>, <<8490, <<107>>>>, <<8491, <<229>>>>, <<9312, <<9312>>>>, 
  <<12290, <<12290>>>>, <<12441, <<12441>>>>, <<12459, <<12459>>>>, <<20013, <<20013>>>>, <<25991, <<25991>>>>, <<57344, <<57344>>>>, 
  <<64257, <<102, 105>>>>, <<64976, <<64976>>>>, <<65292, <<65292>>>>, <<65294, <<65294>>>>, <<65296, <<65296>>>>, <<65297, <<65297>>>>, 
  <<65298, <<65298>>>>, <<65299, <<65299>>>>, <<65300, <<65300>>>>, <<65301, <<65301>>>>, <<65302, <<65302>>>>, <<65303, <<65303>>>>, 
  <<65304, <<65304>>>>, <<65305, <<65305>>>>, <<65306, <<65306>>>>, <<65313, <<65345>>>>, <<65377, <<65377>>>>, <<65398, <<65398>>>>, 
  <<65438, <<65438>>>>, <<65533, <<65533>>>>, <<119808, <<97>>>>, <<128512, <<128512>>>>, <<1114111, <<1114111>>>> >>
DecompTable == <<
  <<168, <<32, 776>>>>, <<170, <<97>>>>, <<178, <<50>>>>, <<180, <<32, 769>>>>, <<189, <<49, 8260, 50>>>>, <<224, <<97, 768>>>>, 
  <<225, <<97, 769>>>>, <<228, <<97, 776>>>>, <<229, <<97, 778>>>>, <<231, <<99, 807>>>>, <<232, <<101, 768>>>>, <<233, <<101, 769>>>>, 
  <<235, <<101, 776>>>>, <<236, <<105, 768>>>>, <<237, <<105, 769>>>>, <<239, <<105, 776>>>>, <<242, <<111, 768>>>>, <<243, <<111, 769>>>>, 
  <<246, <<111, 776>>>>, <<249, <<117, 768>>>>, <<250, <<117, 769>>>>, <<252, <<117, 776>>>>, <<253, <<121, 769>>>>, <<255, <<121, 776>>>>, 
  <<257, <<97, 772>>>>, <<263, <<99, 769>>>>, <<267, <<99, 775>>>>, <<269, <<99, 780>>>>, <<271, <<100, 780>>>>, <<275, <<101, 772>>>>, 
  <<279, <<101, 775>>>>, <<283, <<101, 780>>>>, <<289, <<103, 775>>>>, <<291, <<103, 807>>>>, <<299, <<105, 772>>>>, <<311, <<107, 807>>>>, 
  <<314, <<108, 769>>>>, <<316, <<108, 807>>>>, <<318, <<108, 780>>>>, <<324, <<110, 769>>>>, <<326, <<110, 807>>>>, <<328, <<110, 780>>>>, 
  <<333, <<111, 772>>>>, <<341, <<114, 769>>>>, <<343, <<114, 807>>>>, <<345, <<114, 780>>>>, <<347, <<115, 769>>>>, <<351, <<115, 807>>>>, 
  <<353, <<115, 780>>>>, <<355, <<116, 807>>>>, <<357, <<116, 780>>>>, <<363, <<117, 772>>>>, <<367, <<117, 778>>>>, <<378, <<122, 769>>>>, 
  <<380, <<122, 775>>>>, <<382, <<122, 780>>>>, <<454, <<100, 122, 780>>>>, <<462, <<97, 780>>>>, <<464, <<105, 780>>>>, <<466, <<111, 780>>>>, 
  <<468, <<117, 780>>>>, <<470, <<117, 776, 772>>>>, <<472, <<117, 776, 769>>>>, <<474, <<117, 776, 780>>>>, <<476, <<117, 776, 768>>>>, 
  <<479, <<97, 776, 772>>>>, <<481, <<97, 775, 772>>>>, <<487, <<103, 780>>>>, <<489, <<107, 780>>>>, <<496, <<106, 780>>>>, <<501, <<103, 769>>>>, 
  <<505, <<110, 768>>>>, <<507, <<97, 778, 769>>>>, <<543, <<104, 780>>>>, <<551, <<97, 775>>>>, <<553, <<101, 807>>>>, <<555, <<111, 776, 772>>>>, 
  <<559, <<111, 775>>>>, <<561, <<111, 775, 772>>>>, <<563, <<121, 772>>>>, <<832, <<768>>>>, <<901, <<32, 776, 769>>>>, <<974, <<969, 769>>>>, 
  <<1104, <<1077, 768>>>>, <<1105, <<1077, 776>>>>, <<1116, <<1082, 769>>>>, <<1117, <<1080, 768>>>>, <<1235, <<1072, 776>>>>, 
  <<1251, <<1080, 772>>>>, <<1253, <<1080, 776>>>>, <<1255, <<1086, 776>>>>, <<7683, <<98, 775>>>>, <<7689, <<99, 807, 769>>>>, 
  <<7691, <<100, 775>>>>, <<7697, <<100, 807>>>>, <<7701, <<101, 772, 768>>>>, <<7703, <<101, 772, 769>>>>, <<7711, <<102, 775>>>>, 
  <<7713, <<103, 772>>>>, <<7715, <<104, 775>>>>, <<7719, <<104, 776>>>>, <<7721, <<104, 807>>>>, <<7727, <<105, 776, 769>>>>, 
  <<7729, <<107, 769>>>>, <<7743, <<109, 769>>>>, <<7745, <<109, 775>>>>, <<7749, <<110, 775>>>>, <<7761, <<111, 772, 768>>>>, 
  <<7763, <<111, 772, 769>>>>, <<7765, <<112, 769>>>>, <<7767, <<112, 775>>>>, <<7769, <<114, 775>>>>, <<7777, <<115, 775>>>>, 
  <<7781, <<115, 769, 775>>>>, <<7783, <<115, 780, 775>>>>, <<7787, <<116, 775>>>>, <<7803, <<117, 772, 776>>>>, <<7809, <<119, 768>>>>, 
  <<7811, <<119, 769>>>>, <<7813, <<119, 776>>>>, <<7815, <<119, 775>>>>, <<7819, <<120, 775>>>>, <<7821, <<120, 776>>>>, <<7823, <<121, 775>>>>, 
  <<7831, <<116, 776>>>>, <<7832, <<119, 778>>>>, <<7833, <<121, 778>>>>, <<7923, <<121, 768>>>>, <<8060, <<969, 768>>>>, <<8173, <<32, 776, 768>>>>, 
  <<9312, <<49>>>>, <<12460, <<12459, 12441>>>>, <<65292, <<44>>>>, <<65294, <<46>>>>, <<65296, <<48>>>>, <<65297, <<49>>>>, <<65298, <<50>>>>, 
  <<65299, <<51>>>>, <<65300, <<52>>>>, <<65301, <<53>>>>, <<65302, <<54>>>>, <<65303, <<55>>>>, <<65304, <<56>>>>, <<65305, <<57>>>>, 
  <<65306, <<58>>>>, <<65345, <<97>>>>, <<65377, <<12290>>>>, <<65398, <<12459>>>>, <<65438, <<12441>>>> >>
CompTable == <<
  <<<<97, 768>>, 224>>, <<<<97, 769>>, 225>>, <<<<97, 772>>, 257>>, <<<<97, 775>>, 551>>, <<<<97, 776>>, 228>>, <<<<97, 778>>, 229>>, 
  <<<<97, 780>>, 462>>, <<<<98, 775>>, 7683>>, <<<<99, 769>>, 263>>, <<<<99, 775>>, 267>>, <<<<99, 780>>, 269>>, <<<<99, 807>>, 231>>, 
  <<<<100, 775>>, 7691>>, <<<<100, 780>>, 271>>, <<<<100, 807>>, 7697>>, <<<<101, 768>>, 232>>, <<<<101, 769>>, 233>>, <<<<101, 772>>, 275>>, 
  <<<<101, 775>>, 279>>, <<<<101, 776>>, 235>>, <<<<101, 780>>, 283>>, <<<<101, 807>>, 553>>, <<<<102, 775>>, 7711>>, <<<<103, 769>>, 501>>, 
  <<<<103, 772>>, 7713>>, <<<<103, 775>>, 289>>, <<<<103, 780>>, 487>>, <<<<103, 807>>, 291>>, <<<<104, 775>>, 7715>>, <<<<104, 776>>, 7719>>, 
  <<<<104, 780>>, 543>>, <<<<104, 807>>, 7721>>, <<<<105, 768>>, 236>>, <<<<105, 769>>, 237>>, <<<<105, 772>>, 299>>, <<<<105, 776>>, 239>>, 
  <<<<105, 780>>, 464>>, <<<<106, 780>>, 496>>, <<<<107, 769>>, 7729>>, <<<<107, 780>>, 489>>, <<<<107, 807>>, 311>>, <<<<108, 769>>, 314>>, 
  <<<<108, 780>>, 318>>, <<<<108, 807>>, 316>>, <<<<109, 769>>, 7743>>, <<<<109, 775>>, 7745>>, <<<<110, 768>>, 505>>, <<<<110, 769>>, 324>>, 
  <<<<110, 775>>, 7749>>, <<<<110, 780>>, 328>>, <<<<110, 807>>, 326>>, <<<<111, 768>>, 242>>, <<<<111, 769>>, 243>>, <<<<111, 772>>, 333>>, 
  <<<<111, 775>>, 559>>, <<<<111, 776>>, 246>>, <<<<111, 780>>, 466>>, <<<<112, 769>>, 7765>>, <<<<112, 775>>, 7767>>, <<<<114, 769>>, 341>>, 
  <<<<114, 775>>, 7769>>, <<<<114, 780>>, 345>>, <<<<114, 807>>, 343>>, <<<<115, 769>>, 347>>, <<<<115, 775>>, 7777>>, <<<<115, 780>>, 353>>, 
  <<<<115, 807>>, 351>>, <<<<116, 775>>, 7787>>, <<<<116, 776>>, 7831>>, <<<<116, 780>>, 357>>, <<<<116, 807>>, 355>>, <<<<117, 768>>, 249>>, 
  <<<<117, 769>>, 250>>, <<<<117, 772>>, 363>>, <<<<117, 776>>, 252>>, <<<<117, 778>>, 367>>, <<<<117, 780>>, 468>>, <<<<119, 768>>, 7809>>, 
  <<<<119, 769>>, 7811>>, <<<<119, 775>>, 7815>>, <<<<119, 776>>, 7813>>, <<<<119, 778>>, 7832>>, <<<<120, 775>>, 7819>>, <<<<120, 776>>, 7821>>, 
  <<<<121, 768>>, 7923>>, <<<<121, 769>>, 253>>, <<<<121, 772>>, 563>>, <<<<121, 775>>, 7823>>, <<<<121, 776>>, 255>>, <<<<121, 778>>, 7833>>, 
  <<<<122, 769>>, 378>>, <<<<122, 775>>, 380>>, <<<<122, 780>>, 382>>, <<<<168, 768>>, 8173>>, <<<<168, 769>>, 901>>, <<<<228, 772>>, 479>>, 
  <<<<229, 769>>, 507>>, <<<<231, 769>>, 7689>>, <<<<239, 769>>, 7727>>, <<<<246, 772>>, 555>>, <<<<252, 768>>, 476>>, <<<<252, 769>>, 472>>, 
  <<<<252, 772>>, 470>>, <<<<252, 780>>, 474>>, <<<<275, 768>>, 7701>>, <<<<275, 769>>, 7703>>, <<<<333, 768>>, 7761>>, <<<<333, 769>>, 7763>>, 
  <<<<347, 775>>, 7781>>, <<<<353, 775>>, 7783>>, <<<<363, 776>>, 7803>>, <<<<551, 772>>, 481>>, <<<<559, 772>>, 561>>, <<<<969, 768>>, 8060>>, 
  <<<<969, 769>>, 974>>, <<<<1072, 776>>, 1235>>, <<<<1077, 768>>, 1104>>, <<<<1077, 776>>, 1105>>, <<<<1080, 768>>, 1117>>, <<<<1080, 772>>, 1251>>, 
  <<<<1080, 776>>, 1253>>, <<<<1082, 769>>, 1116>>, <<<<1086, 776>>, 1255>>, <<<<12459, 12441>>, 12460>> >>
ClassTable == <<
  <<768, <<230>>>>, <<769, <<230>>>>, <<772, <<230>>>>, <<775, <<230>>>>, <<776, <<230>>>>, <<778, <<230>>>>, <<780, <<230>>>>, <<807, <<202>>>>, 
  <<832, <<230>>>>, <<12441, <<8>>>> >>
Marks == {768, 769, 772, 775, 776, 778, 780, 807, 832, 2307, 8413, 12441}
Prohibited == {545, 832, 57344, 64976, 65533, 128512, 1114111}
RandAL == {1488, 1489, 1575}
LCat == {97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 170, 224, 225, 228, 229, 231, 232, 233, 235, 236, 237, 239, 242, 243, 246, 249, 250, 252, 253, 255, 257, 263, 267, 269, 271, 275, 279, 283, 289, 291, 299, 305, 311, 314, 316, 318, 324, 326, 328, 333, 341, 343, 345, 347, 351, 353, 355, 357, 363, 367, 378, 380, 382, 454, 462, 464, 466, 468, 470, 472, 474, 476, 479, 481, 487, 489, 496, 501, 505, 507, 543, 551, 553, 555, 559, 561, 563, 700, 946, 956, 963, 969, 974, 1072, 1074, 1077, 1080, 1082, 1084, 1086, 1087, 1088, 1090, 1104, 1105, 1116, 1117, 1235, 1251, 1253, 1255, 2307, 7683, 7689, 7691, 7697, 7701, 7703, 7711, 7713, 7715, 7719, 7721, 7727, 7729, 7743, 7745, 7749, 7761, 7763, 7765, 7767, 7769, 7777, 7781, 7783, 7787, 7803, 7809, 7811, 7813, 7815, 7819, 7821, 7823, 7831, 7832, 7833, 7923, 8060, 12459, 12460, 20013, 25991, 57344, 65345, 65398, 65438}
(* every character folding, decomposing and composing lead to: left alone by  *)
(* folding                                                                    *)
Closure == {224, 225, 228, 231, 232, 235, 236, 237, 239, 242, 243, 249, 250, 253, 255, 257, 263, 267, 269, 271, 275, 279, 283, 289, 291, 299, 311, 314, 316, 318, 324, 326, 328, 333, 341, 343, 345, 347, 351, 353, 355, 357, 363, 367, 378, 380, 382, 454, 462, 464, 466, 468, 470, 472, 474, 476, 479, 481, 487, 489, 496, 501, 505, 507, 543, 551, 553, 555, 559, 561, 563, 700, 768, 775, 778, 780, 901, 956, 969, 974, 1104, 1105, 1116, 1117, 1235, 1251, 1253, 1255, 7683, 7689, 7691, 7697, 7701, 7703, 7711, 7713, 7715, 7719, 7721, 7727, 7729, 7743, 7745, 7749, 7761, 7763, 7765, 7767, 7769, 7777, 7781, 7783, 7787, 7803, 7809, 7811, 7813, 7815, 7819, 7821, 7823, 7831, 7832, 7833, 7923, 8060, 8173, 8260, 12460, 65345}
ToFun(t) == [c \in {t[i][1] : i \in DOMAIN t} |-> t[CHOOSE i \in DOMAIN t : t[i][1] = c][2]]
=============================================================================
