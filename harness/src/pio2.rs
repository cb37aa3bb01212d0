//! Generated by tools/gen_pio2.py: significands and exponents of the numbers nearest to multiples of pi/2.

pub const F32: &[(u64, i32)] = &[
    (8388608, -24), (16777215, -24), (16777214, -24), (13176794, -24), (13176795, -23), (13176794, -23), (13176793, -23), (16777214, -23),
    (13176795, -22), (13176794, -22), (13176796, -22), (13176792, -22), (9882596, -21), (16470993, -21), (13176794, -21), (9882597, -21),
    (9882596, -20), (14823894, -20), (11529695, -20), (13176794, -20), (9882596, -19), (14823894, -19), (13176794, -19), (12353244, -19),
    (9882596, -18), (14823894, -18), (14000344, -18), (9059046, -18), (9882596, -17), (14823894, -17), (15853331, -17), (11941470, -17),
    (16573937, -16), (14103288, -16), (11632639, -16), (9882596, -16), (16573937, -15), (9522293, -15), (14103288, -15), (9161990, -15),
    (16573937, -14), (13048115, -14), (9522293, -14), (10577466, -14), (16573937, -13), (14811026, -13), (8814555, -13), (15866199, -13),
    (9168424, -12), (16573937, -12), (14811026, -12), (11285204, -12), (9168424, -11), (13752636, -11), (11989725, -11), (14811026, -11),
    (9168424, -10), (11989725, -10), (16044742, -10), (10226814, -10), (9168424, -9), (13135778, -9), (16044742, -9), (8463903, -9),
    (13444207, -8), (14590260, -8), (12298154, -8), (9168424, -8), (13444207, -7), (14590260, -7), (12298154, -7), (10006048, -7),
    (13444207, -6), (9796642, -6), (10942695, -6), (14590260, -6), (8545886, -5), (13444207, -5), (9796642, -5), (14694963, -5),
    (8545886, -4), (12818829, -4), (9171264, -4), (9796642, -4), (8545886, -3), (12818829, -3), (8858575, -3), (9171264, -3),
    (10838702, -2), (15111645, -2), (8545886, -2), (13131518, -2), (10838702, -1), (16258053, -1), (15111645, -1), (9692294, -1),
    (10838702, 0), (16258053, 0), (15684849, 0), (10265498, 0), (15971451, 1), (10552100, 1), (10838702, 1), (16258053, 1),
    (10695401, 2), (15971451, 2), (10552100, 2), (10838702, 2), (10695401, 3), (13333426, 3), (16114752, 3), (10552100, 3),
    (10695401, 4), (13333426, 4), (12086064, 4), (16114752, 4), (8681057, 5), (10695401, 5), (13333426, 5), (9304738, 5),
    (9688229, 6), (8681057, 6), (15347770, 6), (9064548, 6), (9688229, 7), (9184643, 7), (8681057, 7), (8560962, 7),
    (9436436, 8), (9688229, 8), (9184643, 8), (8560962, 8), (14406447, 9), (9436436, 9), (9688229, 9), (14154654, 9),
    (9436436, 10), (9688229, 10), (16513763, 10), (9940022, 10), (10741887, 11), (13100996, 11), (16765556, 11), (9436436, 11),
    (10741887, 12), (13100996, 12), (12574167, 12), (16765556, 12), (10741887, 13), (14017136, 13), (14933276, 13), (9825747, 13),
    (10741887, 14), (14017136, 14), (11199957, 14), (14933276, 14), (10741887, 15), (14246171, 15), (14475206, 15), (10512852, 15),
    (10741887, 16), (12494029, 16), (8989745, 16), (8760710, 16), (11617958, 17), (10741887, 17), (9865816, 17), (8760710, 17),
    (11617958, 18), (16550866, 18), (10741887, 18), (9865816, 18), (11617958, 19), (14084412, 19), (16550866, 19), (10027575, 19),
    (11617958, 20), (12851185, 20), (14084412, 20), (9151504, 20), (11617958, 21), (15139061, 21), (9330082, 21), (10563309, 21),
    (16282999, 22), (10474020, 22), (11617958, 22), (9330082, 22), (16282999, 23), (10474020, 23), (11045989, 23), (15711030, 23),
    (10474020, 24), (11045989, 24), (15711030, 24), (11617958, 24), (12069257, 25), (9450752, 25), (13664494, 25), (10474020, 25),
    (12069257, 26), (9450752, 26), (14176128, 26), (14687762, 26), (14431945, 27), (9450752, 27), (16538816, 27), (14687762, 27),
    (15613289, 28), (8525225, 28), (9450752, 28), (16538816, 28), (8860080, 29), (8525225, 29), (16538816, 29), (8622966, 29),
    (8564744, 30), (8820561, 30), (16538816, 30), (8464890, 30), (8417076, 31), (8820561, 31), (16686484, 31), (8473185, 31),
    (8417076, 32), (8894395, 32), (16760318, 32), (8553201, 32), (8417076, 33), (8894395, 33), (16760318, 33), (8435622, 33),
    (8895696, 34), (8932613, 34), (8858779, 34), (8417076, 34), (8895696, 35), (13343544, 35), (8932613, 35), (8969530, 35),
    (8895696, 36), (15567468, 36), (8969530, 36), (13454295, 36), (8895696, 37), (16679430, 37), (9043364, 37), (15825887, 37),
    (8895696, 38), (16679430, 38), (9191032, 38), (16084306, 38), (8895696, 39), (16679430, 39), (8450466, 39), (8524300, 39),
    (8895696, 40), (14881721, 40), (16679430, 40), (9229062, 40), (14946604, 41), (14390623, 41), (13834642, 41), (8895696, 41),
    (14946604, 42), (14390623, 42), (13834642, 42), (12722680, 42), (11209953, 43), (14946604, 43), (10653972, 43), (13834642, 43),
    (11209953, 44), (12800288, 44), (14946604, 44), (9063637, 44), (13873446, 45), (10136795, 45), (11209953, 45), (12800288, 45),
    (13873446, 46), (10136795, 46), (9600216, 46), (11209953, 46), (15473482, 47), (8536759, 47), (13873446, 47), (10673374, 47),
    (15473482, 48), (14673464, 48), (13873446, 48), (12273410, 48), (15073473, 49), (15473482, 49), (14673464, 49), (13873446, 49),
    (11405107, 50), (15073473, 50), (15473482, 50), (11005098, 50), (11405107, 51), (13239290, 51), (9570924, 51), (9170915, 51),
    (11405107, 52), (13239290, 52), (9570924, 52), (14356386, 52), (9012376, 53), (11405107, 53), (13239290, 53), (9570924, 53),
    (9012376, 54), (13518564, 54), (11405107, 54), (13797838, 54), (9012376, 55), (15771658, 55), (9291650, 55), (13937475, 55),
    (9012376, 56), (15771658, 56), (9570924, 56), (16749117, 56), (9012376, 57), (15771658, 57), (8658558, 57), (14430930, 57),
    (9012376, 58), (15771658, 58), (10278560, 58), (15417840, 58), (9012376, 59), (12550290, 59), (15771658, 59), (9645468, 59),
    (13034427, 60), (14160974, 60), (11907880, 60), (9012376, 60), (13034427, 61), (14160974, 61), (11907880, 61), (9654786, 61),
    (10057457, 62), (13034427, 62), (14160974, 62), (8930910, 62), (10057457, 63), (11545942, 63), (8568972, 63), (8930910, 63),
    (10057457, 64), (15830428, 64), (11545942, 64), (8568972, 64), (10057457, 65), (15830428, 65), (11545942, 65), (8568972, 65),
    (14015064, 66), (10057457, 66), (11872821, 66), (12199700, 66), (14015064, 67), (10057457, 67), (9149775, 67), (11872821, 67),
    (10511298, 68), (14015064, 68), (10057457, 68), (13107382, 68), (8759415, 69), (15766947, 69), (9603616, 69), (14405424, 69),
    (8759415, 70), (15766947, 70), (12458361, 70), (16611148, 70), (8759415, 71), (15766947, 71), (9408436, 71), (14112654, 71),
    (16367173, 72), (14615290, 72), (8759415, 72), (15766947, 72), (16367173, 73), (9059528, 73), (14615290, 73), (11111524, 73),
    (16367173, 74), (11837409, 74), (9059528, 74), (13589292, 74), (16367173, 75), (14102291, 75), (9059528, 75), (15854174, 75),
    (16367173, 76), (15234732, 76), (8440086, 76), (9059528, 76), (16367173, 77), (8749807, 77), (15234732, 77), (12969850, 77),
    (12558490, 78), (16367173, 78), (8749807, 78), (11426049, 78), (12558490, 79), (16367173, 79), (10087928, 79), (11426049, 79),
    (12558490, 80), (11323209, 80), (10087928, 80), (15131892, 80), (15080472, 81), (12558490, 81), (8801227, 81), (11271789, 81),
    (13819481, 82), (15080472, 82), (12558490, 82), (10036508, 82), (13819481, 83), (10049363, 83), (11310354, 83), (15080472, 83),
    (15704540, 84), (13819481, 84), (9425295, 84), (15080472, 84), (9737329, 85), (15704540, 85), (11934422, 85), (9425295, 85),
    (13663464, 86), (9737329, 86), (11778405, 86), (15704540, 86), (10757867, 87), (13663464, 87), (11778405, 87), (15704540, 87),
    (14173733, 88), (10757867, 88), (10247598, 88), (13663464, 88), (14173733, 89), (15881666, 89), (12465800, 89), (8539665, 89),
    (14173733, 90), (15881666, 90), (12465800, 90), (9049934, 90), (11057283, 91), (14173733, 91), (15881666, 91), (9349350, 91),
    (12615508, 92), (11057283, 92), (9499058, 92), (9349350, 92), (12615508, 93), (11057283, 93), (9499058, 93), (14248587, 93),
    (9461631, 94), (15769385, 94), (15806812, 94), (9499058, 94), (16567211, 95), (9461631, 95), (10259457, 95), (15769385, 95),
    (9860544, 96), (13014421, 96), (13413334, 96), (9461631, 96), (9860544, 97), (13014421, 97), (14790816, 97), (16168298, 97),
    (9860544, 98), (10549285, 98), (14790816, 98), (11238026, 98), (8627976, 99), (11781853, 99), (16023384, 99), (9461631, 99),
    (8627976, 100), (12398137, 100), (16639668, 100), (9135175, 100), (8627976, 101), (12398137, 101), (16639668, 101), (8953633, 101),
    (8473905, 102), (12398137, 102), (16639668, 102), (8753777, 102), (12438944, 103), (12593015, 103), (12284873, 103), (8473905, 103),
    (12438944, 104), (12593015, 104), (12747086, 104), (12130802, 104),
];
pub const F64: &[(u64, i32)] = &[
    (4503599627370496, -53), (9007199254740991, -53), (9007199254740990, -53), (7074237752028440, -53), (7074237752028440, -52), (7074237752028441, -52), (7074237752028439, -52), (9007199254740990, -52),
    (7074237752028440, -51), (7074237752028441, -51), (7074237752028442, -51), (7074237752028438, -51), (5305678314021330, -50), (8842797190035550, -50), (7074237752028442, -50), (5305678314021333, -50),
    (5305678314021330, -49), (8842797190035550, -49), (5305678314021333, -49), (8842797190035555, -49), (5305678314021330, -48), (6632097892526663, -48), (8842797190035550, -48), (6632097892526664, -48),
    (6411027962775774, -47), (7295307681779329, -47), (5526748243772219, -47), (5305678314021330, -47), (6411027962775774, -46), (7295307681779329, -46), (8179587400782884, -46), (4642468524768664, -46),
    (6411027962775774, -45), (8455924812971495, -45), (5250410831583608, -45), (6134690550587163, -45), (6411027962775774, -44), (5830719397179691, -44), (5250410831583608, -44), (7875616247375412, -44),
    (6411027962775774, -43), (7723630670671676, -43), (4518116689283789, -43), (5678733820475955, -43), (6411027962775774, -42), (7067329316723725, -42), (7723630670671676, -42), (5098425254879872, -42),
    (6411027962775774, -41), (8341935630443693, -41), (5136421649055806, -41), (5792723003003757, -41), (6411027962775774, -40), (8979238787303677, -40), (5773724805915790, -40), (5136421649055806, -40),
    (6411027962775774, -39), (6092376384345782, -39), (5773724805915790, -39), (8660587208873685, -39), (6251702173560778, -38), (6411027962775774, -38), (6092376384345782, -38), (5773724805915790, -38),
    (6331365068168276, -37), (6251702173560778, -37), (6411027962775774, -37), (6092376384345782, -37), (6291533620864527, -36), (6331365068168276, -36), (6251702173560778, -36), (6172039278953280, -36),
    (4748523801126207, -35), (6291533620864527, -35), (4708692353822458, -35), (7914206335210345, -35), (5520028710995367, -34), (7102869978037436, -34), (7874374887906596, -34), (4748523801126207, -34),
    (5520028710995367, -33), (7102869978037436, -33), (5905781165929947, -33), (7874374887906596, -33), (7295746205504726, -32), (5520028710995367, -32), (5327152483528077, -32), (7488622432972016, -32),
    (7295746205504726, -31), (5520028710995367, -31), (5616466824729012, -31), (5327152483528077, -31), (7295746205504726, -30), (8231824009626228, -30), (4583950906873865, -30), (5423590597261722, -30),
    (7763785107565477, -29), (7295746205504726, -29), (8231824009626228, -29), (6359668401383224, -29), (7763785107565477, -28), (5705829105158920, -28), (6173868007219671, -28), (7295746205504726, -28),
    (7763785107565477, -27), (4910870554986017, -27), (5705829105158920, -27), (8558743657738380, -27), (7763785107565477, -26), (6337327831275747, -26), (5705829105158920, -26), (8558743657738380, -26),
    (7763785107565477, -25), (8477013745710342, -25), (7050556469420612, -25), (4992600467014055, -25), (7763785107565477, -24), (8477013745710342, -24), (7050556469420612, -24), (5624099193130882, -24),
    (7763785107565477, -23), (6001145990210324, -23), (5287917352065459, -23), (8477013745710342, -23), (7763785107565477, -22), (6001145990210324, -22), (4763212112460315, -22), (9001718985315486, -22),
    (6001145990210324, -21), (6263498610012896, -21), (9001718985315486, -21), (6525851229815468, -21), (6132322300111610, -20), (7632608797664191, -20), (4632035802559029, -20), (6001145990210324, -20),
    (6132322300111610, -19), (7632608797664191, -19), (4566447647608386, -19), (4697623957509672, -19), (8415546123915803, -18), (5349384973859998, -18), (6132322300111610, -18), (4566447647608386, -18),
    (5740853636985804, -17), (8415546123915803, -17), (5349384973859998, -17), (6132322300111610, -17), (5740853636985804, -16), (8611280455478706, -16), (8415546123915803, -16), (5545119305422901, -16),
    (5740853636985804, -15), (8611280455478706, -15), (8415546123915803, -15), (8219811792352900, -15), (7795806585074029, -14), (6360593175827578, -14), (5740853636985804, -14), (8611280455478706, -14),
    (4615509997160240, -13), (7795806585074029, -13), (6360593175827578, -13), (5740853636985804, -13), (4615509997160240, -12), (6923264995740360, -12), (5488051586493909, -12), (6360593175827578, -12),
    (4615509997160240, -11), (8077142495030420, -11), (6360593175827578, -11), (6079257265871187, -11), (4615509997160240, -10), (8654081244675450, -10), (5797921355914796, -10), (8696882033872194, -10),
    (4615509997160240, -9), (8942550619497965, -9), (4672577716089232, -9), (8761083217667310, -9), (4615509997160240, -8), (8942550619497965, -8), (4644043856624736, -8), (8707582231171380, -8),
    (4615509997160240, -7), (8942550619497965, -7), (4629776926892488, -7), (8680831737923415, -7), (4615509997160240, -6), (6491452616614853, -6), (8942550619497965, -6), (5054455841151871, -6),
    (6563124118766349, -5), (6274654743943834, -5), (5986185369121319, -5), (4615509997160240, -5), (6563124118766349, -4), (6274654743943834, -4), (6851593493588864, -4), (5697715994298804, -4),
    (6563124118766349, -3), (4850225745369133, -3), (5138695120191648, -3), (6274654743943834, -3), (5706674932067741, -2), (6563124118766349, -2), (4850225745369133, -2), (5138695120191648, -2),
    (6134899525417045, -1), (5706674932067741, -1), (5278450338718437, -1), (4710470526842344, -1), (6134899525417045, 0), (5920787228742393, 0), (5706674932067741, 0), (4710470526842344, 0),
    (6027843377079719, 1), (6134899525417045, 1), (5920787228742393, 1), (4603414378505018, 1), (6081371451248382, 2), (6027843377079719, 2), (5974315302911056, 2), (4549886304336355, 2),
    (6081371451248382, 3), (6027843377079719, 3), (5974315302911056, 3), (8961472954366584, 3), (7574950276976146, 4), (4534264551351955, 4), (6081371451248382, 4), (5974315302911056, 4),
    (7574950276976146, 5), (8321739689840028, 5), (4534264551351955, 5), (6081371451248382, 5), (7948344983408087, 6), (7574950276976146, 6), (8321739689840028, 6), (6828160864112264, 6),
    (5867910060948080, 7), (7948344983408087, 7), (7574950276976146, 7), (6241304767380021, 7), (5867910060948080, 8), (7948344983408087, 8), (8801865091422120, 8), (5014389952934047, 8),
    (5867910060948080, 9), (6481367468171067, 9), (8801865091422120, 9), (7094824875394054, 9), (5134421303329570, 10), (7214856225789577, 10), (8801865091422120, 10), (6241304767380021, 10),
    (4767676924520315, 11), (7581600604598832, 11), (8801865091422120, 11), (4901008930161210, 11), (7458244090391966, 12), (7824988469201221, 12), (7091499711582711, 12), (4767676924520315, 12),
    (7458244090391966, 13), (7824988469201221, 13), (8191732848010476, 13), (6724755332773456, 13), (7458244090391966, 14), (5777055257198602, 14), (6143799636007857, 14), (5043566499580092, 14),
    (6617649673795284, 15), (7458244090391966, 15), (5777055257198602, 15), (8665582885797903, 15), (6617649673795284, 16), (7037946882093625, 16), (7458244090391966, 16), (5777055257198602, 16),
    (4963237255346463, 17), (8272062092244105, 17), (7458244090391966, 17), (6224128880241486, 17), (4963237255346463, 18), (8272062092244105, 18), (8692359300542446, 18), (5383534463644804, 18),
    (4963237255346463, 19), (8272062092244105, 19), (4654708452808843, 19), (6000592068720044, 19), (4963237255346463, 20), (8272062092244105, 20), (4808972854077653, 20), (6309120871257664, 20),
    (4963237255346463, 21), (8272062092244105, 21), (4886105054712058, 21), (6463385272526474, 21), (7406289782702492, 22), (4963237255346463, 22), (8272062092244105, 22), (8194929891609700, 22),
    (5357557309800067, 23), (7406289782702492, 23), (4963237255346463, 23), (6146197418707275, 23), (7209129755475690, 24), (5357557309800067, 24), (5554717337026869, 24), (7406289782702492, 24),
    (7209129755475690, 25), (5456137323413468, 25), (5554717337026869, 25), (5258977296186666, 25), (7209129755475690, 26), (6332633539444579, 26), (5456137323413468, 26), (8184205985120202, 26),
    (7209129755475690, 27), (8573164086329057, 27), (4968599208591212, 27), (6721591640653434, 27), (7209129755475690, 28), (6088864482033451, 28), (4968599208591212, 28), (7452898812886818, 28),
    (8451279557623493, 29), (4846714679885648, 29), (7209129755475690, 29), (4724830151180084, 29), (8451279557623493, 30), (6027922217680669, 30), (4846714679885648, 30), (7270072019828472, 30),
    (8451279557623493, 31), (7239600887652081, 31), (4816243547709257, 31), (4846714679885648, 31), (8451279557623493, 32), (7845440222637787, 32), (4846714679885648, 32), (8481750689799884, 32),
    (8754199225116346, 33), (8451279557623493, 33), (4513323880216404, 33), (4543795012392795, 33), (8754199225116346, 34), (4680019280051026, 34), (8148359890130640, 34), (4513323880216404, 34),
    (8754199225116346, 35), (6717109252583686, 35), (4680019280051026, 35), (7020028920076539, 35), (8754199225116346, 36), (7735654238850016, 36), (6717109252583686, 36), (4680019280051026, 36),
    (8244926731983181, 37), (8754199225116346, 37), (7735654238850016, 37), (6717109252583686, 37), (6311013172270677, 38), (8244926731983181, 38), (8754199225116346, 38), (5801740679137512, 38),
    (6311013172270677, 39), (7277969952126929, 39), (5344056392414425, 39), (4834783899281260, 39), (6311013172270677, 40), (6794491562198803, 40), (5827534782342551, 40), (4834783899281260, 40),
    (6311013172270677, 41), (6552752367234740, 41), (6069273977306614, 41), (4593044704317197, 41), (6311013172270677, 42), (6552752367234740, 42), (6069273977306614, 42), (5585795587378488, 42),
    (7949201264079362, 43), (6311013172270677, 43), (4672825080461992, 43), (4914564275426055, 43), (7949201264079362, 44), (6311013172270677, 44), (4672825080461992, 44), (7009237620692988, 44),
    (7949201264079362, 45), (5142806902155179, 45), (5612788723848366, 45), (8419183085772549, 45), (8533304399137111, 46), (4558703767097430, 46), (7949201264079362, 46), (6780994993963864, 46),
    (8533304399137111, 47), (6253952515588396, 47), (4558703767097430, 47), (6838055650646145, 47), (8533304399137111, 48), (5406328141342913, 48), (6253952515588396, 48), (4558703767097430, 48),
    (8533304399137111, 49), (4690464386691297, 49), (5406328141342913, 49), (7817440644485495, 49), (5048396264017105, 50), (6611884392914204, 50), (6969816270240012, 50), (4690464386691297, 50),
    (8354338460474207, 51), (5048396264017105, 51), (6611884392914204, 51), (5227362202680009, 51), (8354338460474207, 52), (4958913294685653, 52), (5048396264017105, 52), (8264855491142755, 52),
    (5003654779351379, 53), (6656625877579930, 53), (6701367362245656, 53), (4958913294685653, 53), (8331967718141344, 54), (5003654779351379, 54), (6656625877579930, 54), (5026025521684242, 54),
    (8331967718141344, 55), (5003654779351379, 55), (6656625877579930, 55), (4981284037018516, 55), (6248975788606008, 56), (8331967718141344, 56), (5003654779351379, 56), (5841325699632086, 56),
    (5207479823838340, 57), (8331967718141344, 57), (5841325699632086, 57), (8761988549448129, 57), (4686731841454506, 58), (8852715700525178, 58), (5433675610658164, 58), (8150513415987246, 58),
    (4686731841454506, 59), (8852715700525178, 59), (4618375432710320, 59), (8659453936331850, 59), (4686731841454506, 60), (7318746226726154, 60), (8852715700525178, 60), (4941202101626808, 60),
    (7564982981241832, 61), (7304608990049915, 61), (7044234998857998, 61), (4686731841454506, 61), (7564982981241832, 62), (7304608990049915, 62), (7044234998857998, 62), (6523487016474164, 62),
    (5673737235931374, 63), (7564982981241832, 63), (5413363244739457, 63), (7044234998857998, 63), (4728114363276145, 64), (8510605853897061, 64), (5152989253547540, 64), (7729483880321310, 64),
    (4728114363276145, 65), (8510605853897061, 65), (6701610558126342, 65), (8935480744168456, 65), (4728114363276145, 66), (5845049456297202, 66), (8510605853897061, 66), (6187673897028858, 66),
    (5759393346114288, 67), (6705016218769517, 67), (4813770473459059, 67), (4728114363276145, 67), (5759393346114288, 68), (8639090019171432, 68), (6705016218769517, 68), (7650639091424746, 68),
    (5759393346114288, 69), (8639090019171432, 69), (8144864555298089, 69), (7650639091424746, 69), (5039469177850002, 70), (8639090019171432, 70), (8144864555298089, 70), (4996641122758545, 70),
    (4679507093717859, 71), (8504826639430232, 71), (8999052103303575, 71), (4728114363276145, 71), (8571958329300832, 72), (8931920413432975, 72), (8211996245168689, 72), (4679507093717859, 72),
    (8571958329300832, 73), (8931920413432975, 73), (4645941248782559, 73), (7852034161036546, 73), (6428968746975624, 74), (8571958329300832, 74), (4645941248782559, 74), (5005903332914702, 74),
    (5357473955813020, 75), (8571958329300832, 75), (5005903332914702, 75), (7508854999372053, 75), (4821726560231718, 76), (8571958329300832, 76), (5725827501178988, 76), (8588741251768482, 76),
    (4553852862441067, 77), (8839832027091483, 77), (5022686255382352, 77), (4679507093717859, 77), (4553852862441067, 78), (5939265544565068, 78), (8839832027091483, 78), (4654332710016384, 78),
    (5916243447979695, 79), (6184117145770346, 79), (5648369750189044, 79), (4553852862441067, 79), (5916243447979695, 80), (6184117145770346, 80), (5648369750189044, 80), (8472554625283566, 80),
    (5916243447979695, 81), (4504151010432434, 81), (6184117145770346, 81), (5648369750189044, 81), (5916243447979695, 82), (8168318953195912, 82), (4504151010432434, 82), (7328335885526956, 82),
    (5916243447979695, 83), (8168318953195912, 83), (5496251914145217, 83), (4504151010432434, 83), (5916243447979695, 84), (7958323186278673, 84), (7748327419361434, 84), (6126239214896934, 84),
    (5916243447979695, 85), (6937283317129184, 85), (4895203578830206, 85), (5105199345747445, 85), (5916243447979695, 86), (6937283317129184, 86), (4895203578830206, 86), (7342805368245309, 86),
    (5202962487846888, 87), (5916243447979695, 87), (8671604146411480, 87), (8363845237394798, 87), (5202962487846888, 88), (5916243447979695, 88), (8671604146411480, 88), (4895203578830206, 88),
    (4769382280526314, 89), (5916243447979695, 89), (8671604146411480, 89), (4587444669813524, 89), (4552592176866027, 90), (5916243447979695, 90), (8888394250071767, 90), (4964908564725200, 90),
    (6101578227064009, 91), (5884788123403722, 91), (5667998019743435, 91), (4552592176866027, 91), (6101578227064009, 92), (5884788123403722, 92), (6318368330724296, 92), (8827182185105583, 92),
    (6101578227064009, 93), (4521986144382935, 93), (4738776248043222, 93), (5884788123403722, 93), (6101578227064009, 94), (5311782185723472, 94), (4521986144382935, 94), (4738776248043222, 94),
    (8757469319925745, 95), (6101578227064009, 95), (5311782185723472, 95), (7967673278585208, 95), (7429523773494877, 96), (8757469319925745, 96), (6101578227064009, 96), (5311782185723472, 96),
    (7429523773494877, 97), (8093496546710311, 97), (6765551000279443, 97), (4647809412508038, 97), (7761510160102594, 98), (7429523773494877, 98), (7097537386887160, 98), (4647809412508038, 98),
    (7761510160102594, 99), (7429523773494877, 99), (7097537386887160, 99), (6433564613671726, 99), (7761510160102594, 100), (5655139426773087, 100), (5323153040165370, 100), (6319112199988521, 100),
    (7761510160102594, 101), (8648702333463489, 101), (4767947253412192, 101), (5987125813380804, 101), (6264728706757393, 102), (7761510160102594, 102), (4767947253412192, 102), (7151920880118288, 102),
    (5072741893404345, 103), (8953496973455642, 103), (7761510160102594, 103), (5377536533396498, 103), (5072741893404345, 104), (8953496973455642, 104), (7761510160102594, 104), (4767947253412192, 104),
    (5072741893404345, 105), (4774745190066083, 105), (8953496973455642, 105), (4767947253412192, 105), (4923743541735214, 106), (5072741893404345, 106), (4774745190066083, 106), (4618948901743061, 106),
    (4923743541735214, 107), (7385615312602821, 107), (5072741893404345, 107), (5221740245073476, 107), (4923743541735214, 108), (7385615312602821, 108), (8691050373871190, 108), (6229178603003583, 108),
    (6807396957803202, 109), (4923743541735214, 109), (7385615312602821, 109), (8691050373871190, 109), (5865570249769208, 110), (6807396957803202, 110), (4923743541735214, 110), (7385615312602821, 110),
    (6336483603786205, 111), (5865570249769208, 111), (6807396957803202, 111), (8798355374653812, 111), (6336483603786205, 112), (7802876166228507, 112), (4870091041343903, 112), (5865570249769208, 112),
    (6336483603786205, 113), (7069679885007356, 113), (5603287322565054, 113), (5132373968548057, 113), (6336483603786205, 114), (7069679885007356, 114), (5603287322565054, 114), (8404930983847581, 114),
    (8103903575038044, 115), (6336483603786205, 115), (4569063632534366, 115), (5302259913755517, 115), (8103903575038044, 116), (5819371758770861, 116), (4569063632534366, 116), (5302259913755517, 116),
    (6077927681278533, 117), (7845347652530372, 117), (8103903575038044, 117), (5819371758770861, 117), (7974625613784208, 118), (5948649720024697, 118), (6077927681278533, 118), (7845347652530372, 118),
    (7974625613784208, 119), (5948649720024697, 119), (5884010739397779, 119), (6077927681278533, 119), (5980969210338156, 120), (7974625613784208, 120), (7942306123470749, 120), (5948649720024697, 120),
    (4984141008615130, 121), (7942306123470749, 121), (8971453815507234, 121), (5916330229711238, 121), (4984141008615130, 122), (8440720224332262, 122), (8971453815507234, 122), (5851691249084320, 122),
    (8207672919058235, 123), (8706087019919748, 123), (7709258818196722, 123), (4984141008615130, 123), (8207672919058235, 124), (8706087019919748, 124), (7709258818196722, 124), (6712430616473696, 124),
    (8207672919058235, 125), (6031151164078298, 125), (6529565264939811, 125), (8706087019919748, 125), (5192097337019086, 126), (8207672919058235, 126), (6031151164078298, 126), (6529565264939811, 126),
    (5192097337019086, 127), (7788146005528629, 127), (5611624250548692, 127), (6031151164078298, 127), (5192097337019086, 128), (7788146005528629, 128), (7997909462293432, 128), (5401860793783889, 128),
    (6595003399656259, 129), (5192097337019086, 129), (7788146005528629, 129), (7997909462293432, 129), (4595526034082901, 130), (7191574702592444, 130), (5192097337019086, 130), (7788146005528629, 130),
    (4595526034082901, 131), (8191313385379123, 131), (7191574702592444, 131), (5192097337019086, 131), (4595526034082901, 132), (6393419709731012, 132), (5595264716869580, 132), (5393681026944333, 132),
    (4595526034082901, 133), (7792235888948407, 133), (6393419709731012, 133), (5595264716869580, 133), (4595526034082901, 134), (6193880961515654, 134), (5994342213300296, 134), (4795064782298259, 134),
    (7692466514840728, 135), (4595526034082901, 135), (6193880961515654, 135), (5994342213300296, 135), (7692466514840728, 136), (6943173738178191, 136), (6193880961515654, 136), (4695295408190580, 136),
    (5769349886130546, 137), (7692466514840728, 137), (6943173738178191, 137), (5020057109468009, 137), (4807791571775455, 138), (6943173738178191, 138), (8654024829195819, 138), (6406146499208208, 138),
    (7798599283687005, 139), (6837040969331914, 139), (5875482654976823, 139), (4807791571775455, 139), (7798599283687005, 140), (6837040969331914, 140), (8760157598042096, 140), (4913924340621732, 140),
    (5608559884176481, 141), (6837040969331914, 141), (6570118198531572, 141), (8760157598042096, 141), (4513540184421219, 142), (5608559884176481, 142), (6837040969331914, 142), (4647001569821390, 142),
    (5061050034298850, 143), (4513540184421219, 143), (7932060669087176, 143), (4927588648898679, 143), (5061050034298850, 144), (7591575051448275, 144), (7044065201570644, 144), (4513540184421219, 144),
    (8583082635084172, 145), (6052557617934747, 145), (5061050034298850, 145), (7591575051448275, 145), (8583082635084172, 146), (6822066334691511, 146), (5061050034298850, 146), (7591575051448275, 146),
    (6437311976313129, 147), (8583082635084172, 147), (4676295675920468, 147), (5061050034298850, 147), (6437311976313129, 148), (8583082635084172, 148), (8967836993462554, 148), (4676295675920468, 148),
    (6437311976313129, 149), (8583082635084172, 149), (5460615236522203, 149), (6629689155502320, 149), (6437311976313129, 150), (8583082635084172, 150), (5948963606417666, 150), (7606385895293246, 150),
    (6437311976313129, 151), (8583082635084172, 151), (5120252461979876, 151), (5948963606417666, 151), (6437311976313129, 152), (6851667548532024, 152), (8583082635084172, 152), (4705896889760981, 152),
    (7717375091808098, 153), (5571604433037055, 153), (6437311976313129, 153), (6851667548532024, 153), (7717375091808098, 154), (5571604433037055, 154), (5138750661399018, 154), (6437311976313129, 154),
    (7717375091808098, 155), (8573833535374601, 155), (4715145989470552, 155), (6004458204675092, 155), (6216260540639325, 156), (7717375091808098, 156), (4715145989470552, 156), (7072718984205828, 156),
    (5037474043271687, 157), (8896161589175736, 157), (7717375091808098, 157), (5359802097072822, 157), (5037474043271687, 158), (8896161589175736, 158), (7717375091808098, 158), (4715145989470552, 158),
    (5037474043271687, 159), (7261514440565621, 159), (5626867291955506, 159), (6672121191881802, 159), (5037474043271687, 160), (6149494241918654, 160), (7850907689249440, 160), (5626867291955506, 160),
    (8112221164231014, 161), (5037474043271687, 161), (6149494241918654, 161), (5888180766937080, 161), (7130857703074834, 162), (8112221164231014, 162), (6149494241918654, 162), (4906817305780900, 162),
    (7621539433652924, 163), (7130857703074834, 163), (8112221164231014, 163), (6149494241918654, 163), (7376198568363879, 164), (7621539433652924, 164), (7130857703074834, 164), (6640175972496744, 164),
    (5716154575239693, 165), (5470813709950648, 165), (7621539433652924, 165), (7130857703074834, 165), (6546176571801786, 166), (4640791713388555, 166), (5716154575239693, 166), (5470813709950648, 166),
    (6546176571801786, 167), (7913879999289448, 167), (4640791713388555, 167), (5716154575239693, 167), (6546176571801786, 168), (7230028285545617, 168), (7913879999289448, 168), (5178473144314124, 168),
    (6546176571801786, 169), (8524646571624148, 169), (5251558285723255, 169), (5935409999467086, 169), (7535411571712967, 170), (6546176571801786, 170), (8524646571624148, 170), (4567706571979424, 170),
    (5404249928806930, 171), (8677338214707823, 171), (6546176571801786, 171), (6393484928718111, 171), (5404249928806930, 172), (8106374893210395, 172), (5975213250304358, 172), (6546176571801786, 172),
    (5404249928806930, 173), (8106374893210395, 173), (5689731589555644, 173), (5975213250304358, 173), (5404249928806930, 174), (8106374893210395, 174), (5546990759181287, 174), (5689731589555644, 174),
    (5404249928806930, 175), (8106374893210395, 175), (6826682826195841, 175), (8249115723584752, 175), (7466528859703118, 176), (4764403895299653, 176), (5404249928806930, 176), (8106374893210395, 176),
    (7466528859703118, 177), (6435389394255024, 177), (5404249928806930, 177), (8106374893210395, 177), (6950959126979071, 178), (7466528859703118, 178), (6435389394255024, 178), (5404249928806930, 178),
    (5342111778415315, 179), (7466528859703118, 179), (4826542045691268, 179), (8044236742818780, 179), (5342111778415315, 180), (4537688104133437, 180), (7466528859703118, 180), (4826542045691268, 180),
    (5342111778415315, 181), (4939899941274376, 181), (4537688104133437, 181), (4826542045691268, 181), (7812061749052503, 182), (5342111778415315, 182), (4939899941274376, 182), (7409849911911564, 182),
    (7812061749052503, 183), (6577086763733909, 183), (4939899941274376, 183), (8644824897230158, 183), (8429549241711800, 184), (7812061749052503, 184), (4939899941274376, 184), (8644824897230158, 184),
    (4832262113515197, 185), (8429549241711800, 185), (7194574256393206, 185), (4724624285756018, 185), (6322161931283850, 186), (4832262113515197, 186), (8429549241711800, 186), (5449749606174494, 186),
    (5268468276069875, 187), (5885955768729172, 187), (8429549241711800, 187), (5449749606174494, 187), (6104058850006511, 188), (5050365194792536, 188), (7993343079157122, 188), (5268468276069875, 188),
    (6104058850006511, 189), (8629241447402779, 189), (5050365194792536, 189), (7157752505220486, 189), (7366650148704645, 190), (6104058850006511, 190), (4841467551308377, 190), (5050365194792536, 190),
    (7366650148704645, 191), (6735354499355578, 191), (6104058850006511, 191), (5050365194792536, 191), (7366650148704645, 192), (6735354499355578, 192), (7997945798053712, 192), (5472763200657444, 192),
    (5367163699191217, 193), (7366650148704645, 193), (6735354499355578, 193), (5998459348540284, 193), (6366906923947931, 194), (5367163699191217, 194), (8734840948869006, 194), (4998716123783570, 194),
    (6366906923947931, 195), (5867035311569574, 195), (5367163699191217, 195), (4998716123783570, 195), (6366906923947931, 196), (5867035311569574, 196), (6866778536326288, 196), (8800552967354361, 196),
    (6366906923947931, 197), (4650212289866359, 197), (5150083902244716, 197), (5867035311569574, 197), (6366906923947931, 198), (5508559606907145, 198), (4650212289866359, 198), (5150083902244716, 198),
    (5937733265427538, 199), (6366906923947931, 199), (5508559606907145, 199), (4720910243724323, 199), (5937733265427538, 200), (6366906923947931, 200), (8906599898141307, 200), (6796080582468324, 200),
    (7636753411044619, 201), (4667886778330850, 201), (5937733265427538, 201), (8906599898141307, 201), (7636753411044619, 202), (5302810021879194, 202), (4667886778330850, 202), (7001830167496275, 202),
    (7636753411044619, 203), (4985348400105022, 203), (5302810021879194, 203), (7954215032818791, 203), (7636753411044619, 204), (5144079210992108, 204), (4985348400105022, 204), (7478022600157533, 204),
    (7636753411044619, 205), (5064713805548565, 205), (5144079210992108, 205), (7716118816488162, 205), (6350733608296592, 206), (7636753411044619, 206), (5064713805548565, 206), (5144079210992108, 206),
    (6350733608296592, 207), (7636753411044619, 207), (8922773213792646, 207), (5668041004200807, 207), (4763050206222444, 208), (7636753411044619, 208), (7938417010370740, 208), (8922773213792646, 208),
    (4763050206222444, 209), (6842911710007545, 209), (8732258711407814, 209), (6239584511355303, 209), (4763050206222444, 210), (7239832560526082, 210), (8732258711407814, 210), (5334593713376940, 210),
    (7192203934929874, 211), (7589124785448411, 211), (6795283084411337, 211), (4763050206222444, 211), (7192203934929874, 212), (7589124785448411, 212), (7986045635966948, 212), (6398362233892800, 212),
    (5592613376456674, 213), (7192203934929874, 213), (5989534226975211, 213), (7986045635966948, 213), (6392408655693274, 214), (5592613376456674, 214), (8388920064685011, 214), (7192203934929874, 214),
    (5992511016074974, 215), (6392408655693274, 215), (5592613376456674, 215), (8388920064685011, 215), (5992511016074974, 216), (8988766524112461, 216), (6192459835884124, 216), (6392408655693274, 216),
    (5992511016074974, 217), (6092485425979549, 217), (8988766524112461, 217), (6192459835884124, 217), (7540625975046005, 218), (4544370467008518, 218), (5992511016074974, 218), (8988766524112461, 218),
    (7540625975046005, 219), (5268440741541746, 219), (4544370467008518, 219), (6816555700512777, 219), (4906405604275132, 220), (7540625975046005, 220), (5268440741541746, 220), (4544370467008518, 220),
    (4906405604275132, 221), (7359608406412698, 221), (7540625975046005, 221), (5087423172908439, 221), (4906405604275132, 222), (8586209807481481, 222), (8767227376114788, 222), (5268440741541746, 222),
    (8063417891263743, 223), (4906405604275132, 223), (8586209807481481, 223), (8767227376114788, 223), (4645009646166263, 224), (5871611047235046, 224), (6836816490194960, 224), (4906405604275132, 224),
    (4645009646166263, 225), (7580815169783786, 225), (5871611047235046, 225), (8807416570852569, 225), (4645009646166263, 226), (8435417231058156, 226), (7580815169783786, 226), (5871611047235046, 226),
    (4645009646166263, 227), (8862718261695341, 227), (8435417231058156, 227), (7580815169783786, 227), (6753863953930802, 228), (4645009646166263, 228), (6326562923293617, 228), (5072310676803448, 228),
    (6753863953930802, 229), (8021941623131664, 229), (4645009646166263, 229), (6326562923293617, 229), (6753863953930802, 230), (7387902788531233, 230), (8021941623131664, 230), (5485786284729940, 230),
    (8759349359713718, 231), (5382417382748317, 231), (6753863953930802, 231), (6016456217348748, 231), (8759349359713718, 232), (5382417382748317, 232), (6753863953930802, 232), (4748378548147886, 232),
    (8759349359713718, 233), (4881046031302588, 233), (7756606656822260, 233), (4748378548147886, 233), (8759349359713718, 234), (6820197695508153, 234), (4881046031302588, 234), (7321569046953882, 234),
    (5599936187682506, 235), (8759349359713718, 235), (6318826344062424, 235), (4881046031302588, 235), (5599936187682506, 236), (7179642773698112, 236), (8399904281523759, 236), (8759349359713718, 236),
    (6389789480690309, 237), (5599936187682506, 237), (7179642773698112, 237), (8399904281523759, 237), (4594878787265781, 238), (6389789480690309, 238), (5599936187682506, 238), (5384732080273584, 238),
    (5492334133978045, 239), (4594878787265781, 239), (7394846881107034, 239), (5384732080273584, 239), (5492334133978045, 240), (5043606460621913, 240), (4594878787265781, 240), (4936004406917452, 240),
    (5267970297299979, 241), (5492334133978045, 241), (5043606460621913, 241), (4711640570239386, 241), (5267970297299979, 242), (5380152215639012, 242), (5155788378960946, 242), (4599458651900353, 242),
    (7958046405119485, 243), (5267970297299979, 243), (5380152215639012, 243), (8070228323458518, 243), (7958046405119485, 244), (6613008351209732, 244), (5380152215639012, 244), (8070228323458518, 244),
    (7958046405119485, 245), (4651542229514619, 245), (6613008351209732, 245), (5380152215639012, 245), (7958046405119485, 246), (6304794317317052, 246), (4651542229514619, 246), (4959756263407299, 246),
    (7958046405119485, 247), (4805649246460959, 247), (6304794317317052, 247), (4959756263407299, 247), (7958046405119485, 248), (6381847825790222, 248), (4728595737987789, 248), (7880992896646315, 248),
    (4767122492224374, 249), (7958046405119485, 249), (6381847825790222, 249), (4728595737987789, 249), (4767122492224374, 250), (7150683738336561, 250), (5574485159007298, 250), (6381847825790222, 250),
    (7554365071728023, 251), (4767122492224374, 251), (5170803825615836, 251), (7150683738336561, 251), (4968963158920105, 252), (7352524405032292, 252), (4767122492224374, 252), (5170803825615836, 252),
    (8645225361436251, 253), (4968963158920105, 253), (7352524405032292, 253), (4767122492224374, 253), (8645225361436251, 254), (5514393303774219, 254), (4968963158920105, 254), (7352524405032292, 254),
    (5241678231347162, 255), (7079809332605235, 255), (6807094260178178, 255), (5514393303774219, 255), (5241678231347162, 256), (7079809332605235, 256), (7862517347020743, 256), (8917940433863308, 256),
    (7471163339812989, 257), (4850324224139408, 257), (5241678231347162, 257), (7862517347020743, 257), (7471163339812989, 258), (4850324224139408, 258), (5046001227743285, 258), (7275486336209112, 258),
    (4850324224139408, 259), (5046001227743285, 259), (8488067392243964, 259), (5241678231347162, 259), (4850324224139408, 260), (5652291755760711, 260), (8488067392243964, 260), (5633032238554916, 260),
    (4547178960130695, 261), (5652291755760711, 261), (8791212656252677, 261), (4811805189727818, 261), (5706025885963129, 262), (6009171149971842, 262), (5402880621954416, 262), (4547178960130695, 262),
    (5706025885963129, 263), (8710611460949050, 263), (6009171149971842, 263), (5402880621954416, 263), (5706025885963129, 264), (8710611460949050, 264), (6009171149971842, 264), (5402880621954416, 264),
    (5706025885963129, 265), (5030665808218827, 265), (8710611460949050, 265), (4727520544210114, 265), (5368345847090978, 266), (5706025885963129, 266), (5030665808218827, 266), (4727520544210114, 266),
    (5368345847090978, 267), (8052518770636467, 267), (8390198809508618, 267), (5706025885963129, 267), (6879272328299798, 268), (5368345847090978, 268), (8052518770636467, 268), (8390198809508618, 268),
    (6879272328299798, 269), (6123809087695388, 269), (5368345847090978, 269), (8052518770636467, 269), (6501540707997593, 270), (6879272328299798, 270), (6123809087695388, 270), (5368345847090978, 270),
    (4970588436073746, 271), (6501540707997593, 271), (6879272328299798, 271), (4592856815771541, 271), (8986834926034466, 272), (4970588436073746, 272), (6501540707997593, 272), (7455882654110619, 272),
    (6978711681054106, 273), (8986834926034466, 273), (4970588436073746, 273), (7455882654110619, 273), (6978711681054106, 274), (7982773303544286, 274), (8986834926034466, 274), (4970588436073746, 274),
    (7480742492299196, 275), (6978711681054106, 275), (7982773303544286, 275), (5974650058563926, 275), (7480742492299196, 276), (7229727086676651, 276), (6978711681054106, 276), (6476680869809016, 276),
    (5610556869224397, 277), (7480742492299196, 277), (5359541463601852, 277), (6978711681054106, 277), (5610556869224397, 278), (7480742492299196, 278), (4549956354875725, 278), (5359541463601852, 278),
    (5610556869224397, 279), (7480742492299196, 279), (8820627858199659, 279), (5080256612050061, 279), (7215592363712028, 280), (5345406740637229, 280), (5610556869224397, 280), (7480742492299196, 280),
    (5477981804930813, 281), (7215592363712028, 281), (5610556869224397, 281), (7480742492299196, 281), (7281879895858820, 282), (5477981804930813, 282), (5411694272784021, 282), (7348167428005612, 282),
    (7281879895858820, 283), (5477981804930813, 283), (5511125571004209, 283), (5411694272784021, 283), (5461409921894115, 284), (7281879895858820, 284), (7315023661932216, 284), (5511125571004209, 284),
    (5461409921894115, 285), (7281879895858820, 285), (7298451778895518, 285), (5486267746449162, 285), (8196257853600347, 286), (5461409921894115, 286), (4555317905670937, 286), (7281879895858820, 286),
    (5008363913782526, 287), (6828833887747231, 287), (6375787879635642, 287), (5461409921894115, 287), (5008363913782526, 288), (7512545870673789, 288), (6828833887747231, 288), (8649303861711936, 288),
    (7170689879210510, 289), (4666507922319247, 289), (5008363913782526, 289), (7512545870673789, 289), (7170689879210510, 290), (6089526896496518, 290), (5008363913782526, 290), (7512545870673789, 290),
    (7170689879210510, 291), (6630108387853514, 291), (6089526896496518, 291), (5008363913782526, 291), (7170689879210510, 292), (6900399133532012, 292), (6630108387853514, 292), (6089526896496518, 292),
    (7035544506371261, 293), (7170689879210510, 293), (6900399133532012, 293), (6630108387853514, 293), (5310444722988258, 294), (7035544506371261, 294), (7170689879210510, 294), (5175299350149009, 294),
    (5310444722988258, 295), (7965667084482387, 295), (7035544506371261, 295), (8760644289754264, 295), (5310444722988258, 296), (7965667084482387, 296), (7500605795426824, 296), (4845383433932695, 296),
    (5310444722988258, 297), (7965667084482387, 297), (6405525259207541, 297), (7500605795426824, 297), (7185596171844964, 298), (4530373810350835, 298), (5310444722988258, 298), (7965667084482387, 298),
    (6248020447416611, 299), (7185596171844964, 299), (5310444722988258, 299), (7965667084482387, 299), (8044419490377852, 300), (5389197128883723, 300), (8981995214806205, 300), (8903242808910740, 300),
    (5818608788150167, 301), (8044419490377852, 301), (5389197128883723, 301), (8981995214806205, 301), (5818608788150167, 302), (7829713660744630, 302), (7615007831111408, 302), (6033314617783389, 302),
    (5818608788150167, 303), (7829713660744630, 303), (5711255873333556, 303), (7615007831111408, 303), (4866732809261241, 304), (8781589639633556, 304), (7829713660744630, 304), (5925961702966778, 304),
    (4866732809261241, 305), (8781589639633556, 305), (7829713660744630, 305), (4759379894444630, 305), (7062130219169630, 306), (4866732809261241, 306), (6586192229725167, 306), (8781589639633556, 306),
    (5726462519493204, 307), (7062130219169630, 307), (6586192229725167, 307), (8781589639633556, 307), (5726462519493204, 308), (8589693779239806, 308), (6394296369331417, 308), (7062130219169630, 308),
    (5726462519493204, 309), (8589693779239806, 309), (7062130219169630, 309), (6298348439134542, 309), (5726462519493204, 310), (6776187259348961, 310), (8589693779239806, 310), (7825911999204718, 310),
    (6967132704357733, 311), (8398748334231034, 311), (5535517074484432, 311), (5726462519493204, 311), (6967132704357733, 312), (8398748334231034, 312), (5535517074484432, 312), (8303275611726648, 312),
    (5583253435736625, 313), (6967132704357733, 313), (8398748334231034, 313), (5535517074484432, 313), (6275193070047179, 314), (5583253435736625, 314), (4891313801426071, 314), (4843577440173878, 314),
    (6275193070047179, 315), (5929223252891902, 315), (5583253435736625, 315), (4843577440173878, 315), (6275193070047179, 316), (5929223252891902, 316), (8893834879337853, 316), (6621162887202456, 316),
    (4619902348246565, 317), (7584513974692516, 317), (5929223252891902, 317), (8893834879337853, 317), (8412159335592823, 318), (4619902348246565, 318), (7584513974692516, 318), (5929223252891902, 318),
    (8412159335592823, 319), (6516030841919694, 319), (4619902348246565, 319), (5688385481019387, 319), (5154143914632976, 320), (8412159335592823, 320), (6516030841919694, 320), (5688385481019387, 320),
    (5154143914632976, 321), (7731215871949464, 321), (8412159335592823, 321), (5835087378276335, 321), (5154143914632976, 322), (7731215871949464, 322), (6516030841919694, 322), (5908438326904809, 322),
    (4509875925303854, 323), (8375483861278586, 323), (5300845811889924, 323), (7951268717834886, 323), (4509875925303854, 324), (8697617855943147, 324), (4766604245503513, 324), (8852265027363667, 324),
    (4509875925303854, 325), (4689280659793253, 325), (8697617855943147, 325), (4942036342911126, 325), (4760645289880834, 326), (5082779284545395, 326), (8877022590432546, 326), (4509875925303854, 326),
    (4760645289880834, 327), (7140967934821251, 327), (5082779284545395, 327), (5404913279209956, 327), (8492196254623740, 328), (6111873609683323, 328), (4760645289880834, 328), (7140967934821251, 328),
    (6626420772252287, 329), (8492196254623740, 329), (4760645289880834, 329), (7140967934821251, 329), (8749469835908222, 330), (6369147190967805, 330), (8492196254623740, 330), (9006743417192704, 330),
    (6497783981610046, 331), (8749469835908222, 331), (6369147190967805, 331), (8492196254623740, 331), (6497783981610046, 332), (7623626908759134, 332), (8749469835908222, 332), (6369147190967805, 332),
    (7060705445184590, 333), (6497783981610046, 333), (7623626908759134, 333), (5371941054460958, 333), (6779244713397318, 334), (7060705445184590, 334), (6497783981610046, 334), (5934862518035502, 334),
    (6779244713397318, 335), (6919975079290954, 335), (7060705445184590, 335), (6497783981610046, 335), (6779244713397318, 336), (6849609896344136, 336), (6919975079290954, 336), (6638514347503682, 336),
    (6814427304870727, 337), (6779244713397318, 337), (6849609896344136, 337), (6708879530450500, 337), (5102024830784693, 338), (6814427304870727, 338), (6779244713397318, 338), (5137207422258102, 338),
    (5102024830784693, 339), (5958226067827710, 339), (8491647187483352, 339), (5137207422258102, 339), (8081137864698548, 340), (5102024830784693, 340), (5958226067827710, 340), (8937339101741565, 340),
    (8081137864698548, 341), (5102024830784693, 341), (5958226067827710, 341), (8937339101741565, 341), (6060853398523911, 342), (8081137864698548, 342), (7122309296959330, 342), (5102024830784693, 342),
    (7601723580828939, 343), (5581439114654302, 343), (6060853398523911, 343), (8081137864698548, 343), (4811004023501788, 344), (7601723580828939, 344), (5581439114654302, 344), (8372158671981453, 344),
    (4811004023501788, 345), (7216506035252682, 345), (5196221569078045, 345), (5581439114654302, 345), (4811004023501788, 346), (6398972574953492, 346), (8419257041128129, 346), (5581439114654302, 346),
    (6807739305103087, 347), (5604988299227640, 347), (8804474586704386, 347), (4811004023501788, 347), (6807739305103087, 348), (5604988299227640, 348), (8010490310978534, 348), (8407482448841460, 348),
    (8208986379909997, 349), (6807739305103087, 349), (5406492230296177, 349), (5604988299227640, 349), (8208986379909997, 350), (7508362842506542, 350), (6807739305103087, 350), (4904364761824185, 350),
    (8208986379909997, 351), (7508362842506542, 351), (8909609917313452, 351), (6107115767699632, 351), (5981583900581634, 352), (7508362842506542, 352), (6682207437985089, 352), (8909609917313452, 352),
    (5981583900581634, 353), (8972375850872451, 353), (6744973371544088, 353), (7508362842506542, 353), (6363278636062861, 354), (5981583900581634, 354), (8972375850872451, 354), (6744973371544088, 354),
    (4677035293176839, 355), (7667827243467656, 355), (5981583900581634, 355), (8972375850872451, 355), (8510948914910667, 356), (4677035293176839, 356), (7667827243467656, 356), (5981583900581634, 356),
    (8510948914910667, 357), (6593992104043753, 357), (4677035293176839, 357), (5750870432600742, 357), (8510948914910667, 358), (7552470509477210, 358), (6593992104043753, 358), (4792392027167285, 358),
    (8510948914910667, 359), (4734713660172062, 359), (7552470509477210, 359), (5635513698610296, 359), (6143592084824636, 360), (8510948914910667, 360), (4734713660172062, 360), (7552470509477210, 360),
    (6143592084824636, 361), (8510948914910667, 361), (5439152872498349, 361), (4734713660172062, 361), (4607694063618477, 362), (7679490106030795, 362), (8510948914910667, 362), (7806509702584380, 362),
    (8095219510470731, 363), (6559321489264572, 363), (4607694063618477, 363), (7679490106030795, 363), (4815558765838445, 364), (8095219510470731, 364), (6559321489264572, 364), (4607694063618477, 364),
    (4815558765838445, 365), (6455389138154588, 365), (6351456787044604, 365), (4919491116948429, 365), (8043253334915739, 366), (4815558765838445, 366), (6455389138154588, 366), (4763592590283453, 366),
    (8043253334915739, 367), (6429406050377092, 367), (4815558765838445, 367), (4841541853615941, 367), (4828550309727193, 368), (8043253334915739, 368), (6429406050377092, 368), (4841541853615941, 368),
    (6435901822321466, 369), (4828550309727193, 369), (4822054537782819, 369), (6442397594265840, 369), (6435901822321466, 370), (8046501220887926, 370), (4828550309727193, 370), (4831798195699380, 370),
    (6435901822321466, 371), (7241201521604696, 371), (8046501220887926, 371), (4825302423755006, 371), (6435901822321466, 372), (6838551671963081, 372), (7241201521604696, 372), (5630602123038236, 372),
    (8246202202722640, 373), (6435901822321466, 373), (5028251291561907, 373), (5430901141203522, 373), (7341052012522053, 374), (8246202202722640, 374), (6435901822321466, 374), (4625601441920292, 374),
    (7341052012522053, 375), (5279501461841393, 375), (6184651652041980, 375), (8246202202722640, 375), (5153876376701650, 376), (5279501461841393, 376), (8246202202722640, 376), (6561526907461209, 376),
    (4638488739031485, 377), (5279501461841393, 377), (8761589840392805, 377), (4625601441920292, 377), (5474382738106604, 378), (4958995100436439, 378), (8887214925532548, 378), (4638488739031485, 378),
    (5474382738106604, 379), (8211574107159906, 379), (7696186469489741, 379), (4958995100436439, 379), (5474382738106604, 380), (8211574107159906, 380), (7180798831819576, 380), (6665411194149411, 380),
    (5474382738106604, 381), (8211574107159906, 381), (8638178130588149, 381), (6327590784963090, 381), (7740578276610702, 382), (5003386907557400, 382), (5474382738106604, 382), (8211574107159906, 382),
    (5238884822832002, 383), (7740578276610702, 383), (5003386907557400, 383), (5474382738106604, 383), (6489731549721352, 384), (5238884822832002, 384), (7858327234248003, 384), (7740578276610702, 384),
    (5864308186276677, 385), (6489731549721352, 385), (5238884822832002, 385), (7858327234248003, 385), (7486741073707015, 386), (5864308186276677, 386), (4867298662291014, 386), (8483750597692678, 386),
    (7486741073707015, 387), (6675524629991846, 387), (5864308186276677, 387), (4867298662291014, 387), (7486741073707015, 388), (6675524629991846, 388), (8297957517422184, 388), (5053091742561508, 388),
    (5412251694351469, 389), (7486741073707015, 389), (6675524629991846, 389), (6223468138066638, 389), (6449496384029242, 390), (5412251694351469, 390), (8750014009347392, 390), (5186223448388865, 390),
    (6449496384029242, 391), (8636999886366090, 391), (5412251694351469, 391), (6562510507010544, 391), (7543248135197666, 392), (6449496384029242, 392), (8636999886366090, 392), (6392989322538591, 392),
    (6996372259613454, 393), (7543248135197666, 393), (6449496384029242, 393), (5355744632860818, 393), (6996372259613454, 394), (7269810197405560, 394), (7543248135197666, 394), (6449496384029242, 394),
    (7133091228509507, 395), (6996372259613454, 395), (7269810197405560, 395), (6722934321821348, 395), (5315638679158117, 396), (7133091228509507, 396), (6996372259613454, 396), (5452357648054170, 396),
    (5315638679158117, 397), (6224364953833812, 397), (8813824808964844, 397), (4543631373378475, 397), (8427821156075023, 398), (5315638679158117, 398), (6224364953833812, 398), (6610368606723633, 398),
    (8427821156075023, 399), (4668273715375359, 399), (5315638679158117, 399), (7780456192292265, 399), (4991956197266738, 400), (6548047435725191, 400), (6871729917616570, 400), (4668273715375359, 400),
    (4991956197266738, 401), (7487934295900107, 401), (6548047435725191, 401), (8104138674183644, 401), (4991956197266738, 402), (7017990865812649, 402), (7487934295900107, 402), (4522012767179280, 402),
    (7252962580856378, 403), (4756984482223009, 403), (4991956197266738, 403), (7487934295900107, 403), (7252962580856378, 404), (8383465772651198, 404), (4756984482223009, 404), (4991956197266738, 404),
    (7252962580856378, 405), (7818214176753788, 405), (8383465772651198, 405), (6122459389061558, 405), (7535588378805083, 406), (7252962580856378, 406), (7818214176753788, 406), (6687710984958968, 406),
    (7535588378805083, 407), (5581034834616636, 407), (5863660632565341, 407), (7252962580856378, 407), (7535588378805083, 408), (4745070961496765, 408), (5581034834616636, 408), (8371552251924954, 408),
    (8930847087459242, 409), (7535588378805083, 409), (4745070961496765, 409), (5581034834616636, 409), (5860682252383780, 410), (8930847087459242, 410), (6140329670150924, 410), (5581034834616636, 410),
    (7395764669921511, 411), (5860682252383780, 411), (8791023378575670, 411), (8930847087459242, 411), (8860935233017456, 412), (7395764669921511, 412), (5860682252383780, 412), (8791023378575670, 412),
    (8860935233017456, 413), (5895638179604673, 413), (5930594106825566, 413), (8895891160238349, 413), (6645701424763092, 414), (8860935233017456, 414), (8110871987859037, 414), (5895638179604673, 414),
    (5538084520635910, 415), (8860935233017456, 415), (5145574934446254, 415), (7718362401669381, 415), (4984276068572319, 416), (8860935233017456, 416), (5860682252383780, 416), (4556810555161770, 416),
    (8762807836470042, 417), (4886148672024905, 417), (4984276068572319, 417), (8860935233017456, 417), (4935212370298612, 418), (8762807836470042, 418), (7655190932342860, 418), (4984276068572319, 418),
    (4935212370298612, 419), (6849010103384327, 419), (7402818555447918, 419), (8762807836470042, 419), (4935212370298612, 420), (6849010103384327, 420), (8636621648022571, 420), (6295201651320736, 420),
    (6509012783128796, 421), (7742815875703449, 421), (5275209690554143, 421), (4935212370298612, 421), (6509012783128796, 422), (7742815875703449, 422), (8976618968278102, 422), (6062109896969235, 422),
    (4881759587346597, 423), (8136265978910995, 423), (8976618968278102, 423), (5722112576713704, 423), (7939540927307222, 424), (4881759587346597, 424), (4685034535742824, 424), (8136265978910995, 424),
    (5597023659435810, 425), (7939540927307222, 425), (4881759587346597, 425), (4685034535742824, 425), (5597023659435810, 426), (8395535489153715, 426), (6768282293371516, 426), (7939540927307222, 426),
    (8981164806121568, 427), (6182652976403663, 427), (5597023659435810, 427), (8395535489153715, 427), (8981164806121568, 428), (7289094232778689, 428), (5597023659435810, 428), (8395535489153715, 428),
    (6735873604591176, 429), (8981164806121568, 429), (5043803031248297, 429), (5597023659435810, 429), (5613228003825980, 430), (8981164806121568, 430), (5597023659435810, 430), (8395535489153715, 430),
    (5051905203443382, 431), (8981164806121568, 431), (5027598686858127, 431), (8379331144763545, 431), (4771243803252083, 432), (8981164806121568, 432), (5003292170272872, 432), (4978985653687617, 432),
    (4771243803252083, 433), (5188184817441489, 433), (8981164806121568, 433), (4883216900664935, 433), (5260375710538085, 434), (4979714310346786, 434), (4699052910155487, 434), (4771243803252083, 434),
    (7750232865711478, 435), (5260375710538085, 435), (4979714310346786, 435), (7469571465520179, 435), (7750232865711478, 436), (5260375710538085, 436), (4979714310346786, 436), (7469571465520179, 436),
    (7750232865711478, 437), (8442862504552651, 437), (4567746071696912, 437), (6364973588029132, 437), (7750232865711478, 438), (6158989468704195, 438), (4567746071696912, 438), (6851619107545368, 438),
    (7750232865711478, 439), (8892169383635706, 439), (5017052950779967, 439), (5466359829863022, 439), (8321201124673592, 440), (7750232865711478, 440), (8892169383635706, 440), (6608296347787250, 440),
    (8035716995192535, 441), (8321201124673592, 441), (7750232865711478, 441), (7179264606749364, 441), (6240900843505194, 442), (5955416714024137, 442), (8321201124673592, 442), (7750232865711478, 442),
    (5200750702920995, 443), (6995566854608336, 443), (8321201124673592, 443), (5669932584543080, 443), (6618233849056765, 444), (7658383989640964, 444), (5578083708472566, 444), (5200750702920995, 444),
    (6618233849056765, 445), (7658383989640964, 445), (5578083708472566, 445), (8367125562708849, 445), (8532829846467006, 446), (6618233849056765, 446), (4703637851646524, 446), (5743787992230723, 446),
    (8532829846467006, 447), (6181010920643744, 447), (4703637851646524, 447), (5743787992230723, 447), (7356920383555375, 448), (8532829846467006, 448), (6181010920643744, 448), (4703637851646524, 448),
    (5811667653394439, 449), (7356920383555375, 449), (8532829846467006, 449), (4635758190482808, 449), (5811667653394439, 450), (6584294018474907, 450), (5039041288313971, 450), (4635758190482808, 450),
    (6197980835934673, 451), (5811667653394439, 451), (5425354470854205, 451), (4635758190482808, 451), (6197980835934673, 452), (6004824244664556, 452), (5811667653394439, 452), (4635758190482808, 452),
    (6197980835934673, 453), (6004824244664556, 453), (6391137427204790, 453), (5618511062124322, 453), (7699186897100812, 454), (6197980835934673, 454), (4503618183498417, 454), (7506030305830695, 454),
    (7699186897100812, 455), (5350799509716545, 455), (4696774774768534, 455), (4503618183498417, 455), (5774390172825609, 456), (7699186897100812, 456), (5350799509716545, 456), (6852005570882684, 456),
    (7487391565546280, 457), (5562594841271077, 457), (5774390172825609, 457), (7699186897100812, 457), (5668492507048343, 458), (7487391565546280, 458), (5774390172825609, 458), (7699186897100812, 458),
    (7540340398434913, 459), (5668492507048343, 459), (5615543674159710, 459), (7593289231323546, 459), (6604416452741628, 460), (7540340398434913, 460), (5668492507048343, 460), (4679619728466425, 460),
    (6604416452741628, 461), (7540340398434913, 461), (8476264344128198, 461), (4732568561355058, 461), (4953312339556221, 462), (8255520565927035, 462), (8476264344128198, 462), (5174056117757384, 462),
    (4953312339556221, 463), (8255520565927035, 463), (7897930482180974, 463), (4595722255810160, 463), (8902277580646708, 464), (7251173467461301, 464), (5600069354275894, 464), (4953312339556221, 464),
    (8902277580646708, 465), (7251173467461301, 465), (5600069354275894, 465), (8400104031413841, 465), (6676708185485031, 466), (8902277580646708, 466), (5025604072299624, 466), (5600069354275894, 466),
    (6676708185485031, 467), (8902277580646708, 467), (4738371431311489, 467), (5025604072299624, 467), (7933109203559937, 468), (5707539808398260, 468), (6676708185485031, 468), (8902277580646708, 468),
    (5079339299360807, 469), (7304908694522484, 469), (5707539808398260, 469), (6676708185485031, 469), (8731793646622049, 470), (5079339299360807, 470), (7304908694522484, 470), (5707539808398260, 470),
    (8731793646622049, 471), (6905566472991428, 471), (5079339299360807, 471), (5478681520891863, 471), (5279010410126335, 472), (8731793646622049, 472), (6905566472991428, 472), (5478681520891863, 472),
    (7005402028374192, 473), (5279010410126335, 473), (5179174854743571, 473), (7105237583756956, 473), (7005402028374192, 474), (8781711424313431, 474), (5279010410126335, 474), (5328928187817717, 474),
    (5254051521280644, 475), (8756752535467740, 475), (7055319806065574, 475), (5328928187817717, 475), (5254051521280644, 476), (8756752535467740, 476), (5328928187817717, 476), (8881546979696195, 476),
    (4816213894507257, 477), (8756752535467740, 477), (5403804854354790, 477), (9006341423924650, 477), (4816213894507257, 478), (5923287405863570, 478), (8756752535467740, 478), (5535367556781565, 478),
    (6026507090345494, 479), (6464344717118881, 479), (5588669463572107, 479), (4816213894507257, 479), (6026507090345494, 480), (6464344717118881, 480), (6902182343892268, 480), (5150831836798720, 480),
    (7752052676318561, 481), (4738799131145814, 481), (6026507090345494, 481), (5176636757919201, 481), (7752052676318561, 482), (5382653110745654, 482), (4738799131145814, 482), (7108198696718721, 482),
    (5060726120945734, 483), (7752052676318561, 483), (5382653110745654, 483), (4738799131145814, 483), (5060726120945734, 484), (7591089181418601, 484), (5221689615845694, 484), (5382653110745654, 484),
    (5060726120945734, 485), (7591089181418601, 485), (5141207868395714, 485), (5221689615845694, 485), (5060726120945734, 486), (7591089181418601, 486), (7631330055143591, 486), (5100966994670724, 486),
    (7611209618281096, 487), (5080846557808229, 487), (5060726120945734, 487), (7591089181418601, 487), (6335967869613415, 488), (7611209618281096, 488), (5060726120945734, 488), (7591089181418601, 488),
    (8238770274183689, 489), (5708407213710822, 489), (7611209618281096, 489), (8866330930086282, 489), (4757006011425685, 490), (5384566667328278, 490), (8562610820566233, 490), (5060726120945734, 490),
    (5546486940519550, 491), (6497888142804687, 491), (4595085738234413, 491), (4757006011425685, 491), (5546486940519550, 492), (8319730410779325, 492), (6497888142804687, 492), (7449289345089824, 492),
    (5546486940519550, 493), (8319730410779325, 493), (7408809276792006, 493), (4635565806532231, 493), (6477648108655778, 494), (5546486940519550, 494), (8319730410779325, 494), (7408809276792006, 494),
    (6477648108655778, 495), (6012067524587664, 495), (5546486940519550, 495), (8319730410779325, 495), (6244857816621721, 496), (6477648108655778, 496), (6012067524587664, 496), (5546486940519550, 496),
    (4741840935474805, 497), (6244857816621721, 497), (6477648108655778, 497), (4509050643440748, 497), (5493349376048263, 498), (4741840935474805, 498), (7980664989802694, 498), (4509050643440748, 498),
    (5117595155761534, 499), (5493349376048263, 499), (4741840935474805, 499), (4509050643440748, 499), (8052146953929030, 500), (5117595155761534, 500), (5493349376048263, 500), (7676392733642301, 500),
    (6584871054845282, 501), (8052146953929030, 501), (5117595155761534, 501), (7676392733642301, 501), (6584871054845282, 502), (7318509004387156, 502), (8052146953929030, 502), (5117595155761534, 502),
    (6951690029616219, 503), (6584871054845282, 503), (7318509004387156, 503), (5851233105303408, 503), (6951690029616219, 504), (5122062778519430, 504), (5488881753290367, 504), (6584871054845282, 504),
    (6951690029616219, 505), (5122062778519430, 505), (8781317280713008, 505), (7683094167779145, 505), (6951690029616219, 506), (4756360709437967, 506), (6585987960534756, 506), (5122062778519430, 506),
    (6951690029616219, 507), (5854025369527093, 507), (4756360709437967, 507), (5488323300445630, 507), (6402857699571656, 508), (6951690029616219, 508), (5854025369527093, 508), (4939490970401067, 508),
    (6402857699571656, 509), (6951690029616219, 509), (7500522359660782, 509), (5305193039482530, 509), (4802143274678742, 510), (8003572124464570, 510), (7500522359660782, 510), (6448640264812431, 510),
    (4802143274678742, 511), (8803929336911027, 511), (6448640264812431, 511), (8598187019749908, 511), (4802143274678742, 512), (8803929336911027, 512), (4550618392276848, 512), (6825927588415272, 512),
    (4802143274678742, 513), (6740155085194411, 513), (8803929336911027, 513), (5814035431547007, 513), (6971684998606262, 514), (6171327786159805, 514), (5370970573713348, 514), (4802143274678742, 514),
    (6971684998606262, 515), (6171327786159805, 515), (5370970573713348, 515), (8056455860570022, 515), (8314427642034599, 516), (4828585142731468, 516), (6971684998606262, 516), (5370970573713348, 516),
    (5900135070668865, 517), (8314427642034599, 517), (4828585142731468, 517), (6971684998606262, 517), (5900135070668865, 518), (7107281356351732, 518), (4692988784985998, 518), (4828585142731468, 518),
    (5900135070668865, 519), (7107281356351732, 519), (4692988784985998, 519), (7039483177478997, 519), (7676955409756798, 520), (5900135070668865, 520), (5330461017263799, 520), (8246629463161864, 520),
    (7676955409756798, 521), (5615298043966332, 521), (5330461017263799, 521), (6184972097371398, 521), (7676955409756798, 522), (6646126726861565, 522), (5615298043966332, 522), (8422947065949498, 522),
    (5242302215869982, 523), (7676955409756798, 523), (4869306387773632, 523), (5615298043966332, 523), (6459628812813390, 524), (5242302215869982, 524), (7863453323804973, 524), (7676955409756798, 524),
    (5850965514341686, 525), (6459628812813390, 525), (5242302215869982, 525), (7863453323804973, 525), (5850965514341686, 526), (8776448271512529, 526), (6155297163577538, 526), (6459628812813390, 526),
    (5850965514341686, 527), (8776448271512529, 527), (6003131338959612, 527), (6155297163577538, 527), (5850965514341686, 528), (8776448271512529, 528), (5927048426650649, 528), (6003131338959612, 528),
    (5850965514341686, 529), (8776448271512529, 529), (7351748349081589, 529), (8852531183821492, 529), (5850965514341686, 530), (8776448271512529, 530), (8064098310297059, 530), (5138615553126216, 530),
    (5850965514341686, 531), (8776448271512529, 531), (8420273290904794, 531), (5494790533733951, 531), (7135619402623240, 532), (5850965514341686, 532), (8776448271512529, 532), (8420273290904794, 532),
    (6493292458482463, 533), (7135619402623240, 533), (5850965514341686, 533), (8776448271512529, 533), (8277197309138273, 534), (5351714551967430, 534), (4709387607826653, 534), (8919524253279050, 534),
    (5351714551967430, 535), (4709387607826653, 535), (8919524253279050, 535), (6100590995528814, 535), (5476527292560994, 536), (4584574867233089, 536), (7385244883810368, 536), (5351714551967430, 536),
    (5476527292560994, 537), (8214790938841491, 537), (7322838513513586, 537), (4584574867233089, 537), (6399682903037290, 538), (5476527292560994, 538), (8214790938841491, 538), (7322838513513586, 538),
    (5938105097799142, 539), (6399682903037290, 539), (5476527292560994, 539), (8214790938841491, 539), (5938105097799142, 540), (8907157646698713, 540), (6168894000418216, 540), (6399682903037290, 540),
    (5938105097799142, 541), (8907157646698713, 541), (6053499549108679, 541), (6168894000418216, 541), (5938105097799142, 542), (8907157646698713, 542), (7480328597903696, 542), (4511276049004125, 542),
    (6709216847851419, 543), (5938105097799142, 543), (8907157646698713, 543), (7480328597903696, 543), (4839134698375495, 544), (7808187247275066, 544), (5938105097799142, 544), (8907157646698713, 544),
    (8743228322013028, 545), (4839134698375495, 545), (7808187247275066, 545), (5938105097799142, 545), (8743228322013028, 546), (4839134698375495, 546), (7808187247275066, 546), (4675205373689810, 546),
    (6557421241509771, 547), (8743228322013028, 547), (4839134698375495, 547), (5306655235744476, 547), (6557421241509771, 548), (7884085050445890, 548), (8743228322013028, 548), (5698277969942633, 548),
    (8313656686229459, 549), (6127849605726202, 549), (6557421241509771, 549), (7884085050445890, 549), (8313656686229459, 550), (5249731883366358, 550), (6127849605726202, 550), (6557421241509771, 550),
    (8313656686229459, 551), (5688790744546280, 551), (5249731883366358, 551), (7874597825049537, 551), (8313656686229459, 552), (5688790744546280, 552), (5469261313956319, 552), (8533186116819420, 552),
    (5688790744546280, 553), (5469261313956319, 553), (8533186116819420, 553), (8094127255639498, 553), (4977691901477995, 554), (5469261313956319, 554), (8533186116819420, 554), (5741301295844682, 554),
    (5934575450785442, 555), (5223476607717157, 555), (4512377764648872, 555), (4977691901477995, 555), (5934575450785442, 556), (8901863176178163, 556), (8190764333109878, 556), (5223476607717157, 556),
    (5934575450785442, 557), (8901863176178163, 557), (7062669891947660, 557), (8190764333109878, 557), (6498622671366551, 558), (5934575450785442, 558), (8901863176178163, 558), (7062669891947660, 558),
    (4732955198379636, 559), (7700242923772357, 559), (5934575450785442, 559), (8901863176178163, 559), (4732955198379636, 560), (7099432797569454, 560), (5333765324582539, 560), (5934575450785442, 560),
    (4732955198379636, 561), (6517004124177448, 561), (8282671597164363, 561), (5934575450785442, 561), (6808218460873451, 562), (7991457260468360, 562), (5624979661278542, 562), (4732955198379636, 562),
    (6808218460873451, 563), (7991457260468360, 563), (5624979661278542, 563), (8437469491917813, 563), (6808218460873451, 564), (8806082775990541, 564), (4810354145756361, 564), (5993592945351270, 564),
    (6808218460873451, 565), (7807150618431996, 565), (5809286303314906, 565), (4994660787792725, 565), (6808218460873451, 566), (7807150618431996, 566), (5809286303314906, 566), (8713929454972359, 566),
    (8760006115481450, 567), (6808218460873451, 567), (4856430806265452, 567), (5855362963823997, 567), (8760006115481450, 568), (6808218460873451, 568), (4856430806265452, 568), (7284646209398178, 568),
    (5594110759307088, 569), (8760006115481450, 569), (6331790712348724, 569), (4856430806265452, 569), (7177058437394269, 570), (5594110759307088, 570), (8391166138960632, 570), (8760006115481450, 570),
    (8575586127221041, 571), (5594110759307088, 571), (8391166138960632, 571), (8760006115481450, 571), (4894846914393702, 572), (5079266902654111, 572), (8391166138960632, 572), (4748843034261543, 572),
    (4545214991937009, 573), (5079266902654111, 573), (8740798061417325, 573), (5302102999042770, 573), (5161872869752253, 574), (4812240947295560, 574), (8925218049677734, 574), (4545214991937009, 574),
    (7567993343400033, 575), (5161872869752253, 575), (4812240947295560, 575), (7218361420943340, 575), (8771053580223923, 576), (7567993343400033, 576), (4812240947295560, 576), (8421421657767230, 576),
    (8771053580223923, 577), (4812240947295560, 577), (4560342751340308, 577), (8421421657767230, 577), (4686291849317934, 578), (5287821967729879, 578), (8169523461811978, 578), (4812240947295560, 578),
    (4686291849317934, 579), (7029437773976901, 579), (5287821967729879, 579), (5889352086141824, 579), (6158629870853390, 580), (8501775795512357, 580), (4686291849317934, 580), (7630967892388846, 580),
    (6158629870853390, 581), (8501775795512357, 581), (5422460860085662, 581), (4686291849317934, 581), (8869860300896221, 582), (5790545365469526, 582), (6158629870853390, 582), (5422460860085662, 582),
    (8869860300896221, 583), (5974587618161458, 583), (5790545365469526, 583), (8685818048204289, 583), (8869860300896221, 584), (5974587618161458, 584), (5882566491815492, 584), (8961881427242187, 584),
    (5928577054988475, 585), (8915870864069204, 585), (5974587618161458, 585), (5882566491815492, 585), (5928577054988475, 586), (8915870864069204, 586), (5974587618161458, 586), (5882566491815492, 586),
    (6686903148051903, 587), (5928577054988475, 587), (8915870864069204, 587), (7399218677942348, 587), (6307740101520189, 588), (8536707817537490, 588), (8157544771005776, 588), (6686903148051903, 588),
    (6307740101520189, 589), (8536707817537490, 589), (6118158578254332, 589), (8157544771005776, 589), (5288047005144467, 590), (6307740101520189, 590), (8536707817537490, 590), (5098465481878610, 590),
    (5797893553332328, 591), (5288047005144467, 591), (4778200456956606, 591), (4588618933690749, 591), (5797893553332328, 592), (8186993781810631, 592), (8696840329998492, 592), (5288047005144467, 592),
    (5797893553332328, 593), (8186993781810631, 593), (8696840329998492, 593), (7677147233622770, 593), (5073156859165787, 594), (7462257087644090, 594), (8696840329998492, 594), (4993090602935286, 594),
    (8079548708821291, 595), (7354812014654750, 595), (6630075320488209, 595), (5073156859165787, 595), (8079548708821291, 596), (7354812014654750, 596), (8804285402987832, 596), (5905338626321668, 596),
    (5878477358074333, 597), (8079548708821291, 597), (7354812014654750, 597), (6603214052240874, 597), (5878477358074333, 598), (6979013033447812, 598), (4777941682700854, 598), (5502678376867395, 598),
    (5878477358074333, 599), (6979013033447812, 599), (4777941682700854, 599), (7166912524051281, 599), (7623230616436286, 600), (5234259775085859, 600), (8723766291809765, 600), (8267448199424760, 600),
    (5556368566580096, 601), (7623230616436286, 601), (5234259775085859, 601), (6200586149568570, 601), (6589799591508191, 602), (5556368566580096, 602), (8334552849870144, 602), (7623230616436286, 602),
    (5556368566580096, 603), (5200707449863167, 603), (8334552849870144, 603), (7623230616436286, 603), (4861822495757584, 604), (5200707449863167, 604), (8334552849870144, 604), (5183931287251821, 604),
    (4514549460346328, 605), (5547980485274423, 605), (8681825885281400, 605), (5167155124640475, 605), (4514549460346328, 606), (5721617002980051, 606), (8855462402987028, 606), (4612693246300899, 606),
    (4514549460346328, 607), (5634798744127237, 607), (8942280661839842, 607), (4537200514549842, 607), (4514549460346328, 608), (5678207873553644, 608), (8985689791266249, 608), (4508054358021276, 608),
    (5660697349493277, 609), (5704106478919684, 609), (5617288220066870, 609), (4514549460346328, 609), (5660697349493277, 610), (8512750588953119, 610), (5704106478919684, 610), (5617288220066870, 610),
    (5660697349493277, 611), (7086723969223198, 611), (8469341459526712, 611), (5704106478919684, 611), (5660697349493277, 612), (7086723969223198, 612), (6352006094645034, 612), (8469341459526712, 612),
    (4602029667052438, 613), (5660697349493277, 613), (7086723969223198, 613), (4969388604341520, 613), (4602029667052438, 614), (6903044500578657, 614), (5660697349493277, 614), (6719365031934116, 614),
    (8582885758562186, 615), (6281870925035967, 615), (4602029667052438, 615), (6903044500578657, 615), (8582885758562186, 616), (6592457712807312, 616), (4602029667052438, 616), (6903044500578657, 616),
    (7587671735684749, 617), (8582885758562186, 617), (6592457712807312, 617), (4602029667052438, 617), (7587671735684749, 618), (5939557307482921, 618), (4944343284605484, 618), (8582885758562186, 618),
    (7587671735684749, 619), (6763614521583835, 619), (5939557307482921, 619), (4944343284605484, 619), (7175643128634292, 620), (7587671735684749, 620), (6763614521583835, 620), (4532314677555027, 620),
    (7175643128634292, 621), (7587671735684749, 621), (7999700342735206, 621), (6351585914533378, 621), (5381732346475719, 622), (8969553910792865, 622), (7999700342735206, 622), (6617818167627090, 622),
    (8278612823238807, 623), (5381732346475719, 623), (4690791258921661, 623), (8969553910792865, 623), (5036261802698690, 624), (6830172584857263, 624), (6484702041080234, 624), (5381732346475719, 624),
    (5036261802698690, 625), (6830172584857263, 625), (7554392704048035, 625), (8624083367015836, 625), (7192282644452649, 626), (4674151743103304, 626), (5036261802698690, 626), (7554392704048035, 626),
    (7192282644452649, 627), (4855206772900997, 627), (4674151743103304, 627), (7011227614654956, 627), (8360820580228475, 628), (7192282644452649, 628), (6023744708676823, 628), (4674151743103304, 628),
    (8360820580228475, 629), (7776551612340562, 629), (7192282644452649, 629), (4674151743103304, 629), (8360820580228475, 630), (7776551612340562, 630), (8945089548116388, 630), (6608013676564736, 630),
    (8360820580228475, 631), (6124548193199378, 631), (6708817161087291, 631), (7776551612340562, 631), (8360820580228475, 632), (5298546483628786, 632), (6124548193199378, 632), (6708817161087291, 632),
    (8360820580228475, 633), (5711547338414082, 633), (5298546483628786, 633), (7947819725443179, 633), (8360820580228475, 634), (5711547338414082, 634), (5505046911021434, 634), (8567321007621123, 634),
    (5608297124717758, 635), (8464070793924799, 635), (5711547338414082, 635), (5505046911021434, 635), (5608297124717758, 636), (8412445687076637, 636), (8464070793924799, 636), (5659922231565920, 636),
    (8438258240500718, 637), (5634109678141839, 637), (5608297124717758, 637), (8412445687076637, 637), (8438258240500718, 638), (7023277682609238, 638), (5608297124717758, 638), (8412445687076637, 638),
    (8438258240500718, 639), (7730767961554978, 639), (7023277682609238, 639), (5608297124717758, 639), (8438258240500718, 640), (8084513101027848, 640), (7730767961554978, 640), (7023277682609238, 640),
    (8438258240500718, 641), (8261385670764283, 641), (8084513101027848, 641), (7730767961554978, 641), (6240257395507321, 642), (8438258240500718, 642), (6063384825770886, 642), (8084513101027848, 642),
    (5229693257878840, 643), (8438258240500718, 643), (6417129965243756, 643), (5052820688142405, 643), (5229693257878840, 644), (7844539886818260, 644), (6833975749189779, 644), (8438258240500718, 644),
    (5229693257878840, 645), (7844539886818260, 645), (5823411611561298, 645), (8735117417341947, 645), (4575981600643985, 646), (8498251544053115, 646), (4812847473932817, 646), (8021412456554695, 646),
    (4575981600643985, 647), (7012401989386592, 647), (8498251544053115, 647), (5348126194523256, 647), (7428470938102426, 648), (6774759280867571, 648), (6121047623632716, 648), (4575981600643985, 648),
    (7428470938102426, 649), (6774759280867571, 649), (6121047623632716, 649), (4813624309163006, 649), (7428470938102426, 650), (8958732844010605, 650), (5244497374959392, 650), (4590785717724537, 650),
    (7428470938102426, 651), (6336484156530909, 651), (5244497374959392, 651), (7866746062439088, 651), (8739595281842274, 652), (5025359812791061, 652), (7428470938102426, 652), (4806222250622730, 652),
    (8739595281842274, 653), (5025359812791061, 653), (7428470938102426, 653), (4806222250622730, 653), (4697578726856099, 654), (8739595281842274, 654), (8084033109972350, 654), (4588935203089468, 654),
    (4533688183888618, 655), (4697578726856099, 655), (8739595281842274, 655), (4588935203089468, 655), (4533688183888618, 656), (6800532275832927, 656), (4697578726856099, 656), (4861469269823580, 656),
    (4533688183888618, 657), (6800532275832927, 657), (5749055501344513, 657), (6964422818800408, 657), (4533688183888618, 658), (6800532275832927, 658), (6274793888588720, 658), (8015899593288822, 658),
    (7671085128182978, 659), (4533688183888618, 659), (5404241036238669, 659), (6800532275832927, 659), (6102386656035798, 660), (7671085128182978, 660), (4533688183888618, 660), (6800532275832927, 660),
    (6102386656035798, 661), (6886735892109388, 661), (7671085128182978, 661), (4533688183888618, 661), (6102386656035798, 662), (6494561274072593, 662), (6886735892109388, 662), (5318037419962208, 662),
    (7824070629063145, 663), (6102386656035798, 663), (4772877301045246, 663), (5165051919082041, 663), (5437631978540522, 664), (8488825306558421, 664), (6102386656035798, 664), (4772877301045246, 664),
    (5437631978540522, 665), (8156447967810783, 665), (5770009317288160, 665), (6102386656035798, 665), (5437631978540522, 666), (8156447967810783, 666), (8322636637184602, 666), (5603820647914341, 666),
    (6880134307862562, 667), (5437631978540522, 667), (8156447967810783, 667), (8322636637184602, 667), (6880134307862562, 668), (6158883143201542, 668), (5437631978540522, 668), (8156447967810783, 668),
    (6519508725532052, 669), (6880134307862562, 669), (6158883143201542, 669), (5437631978540522, 669), (6519508725532052, 670), (6699821516697307, 670), (6880134307862562, 670), (6158883143201542, 670),
    (4889631544149039, 671), (8149385906915065, 671), (6880134307862562, 671), (5430569917644804, 671), (4889631544149039, 672), (7424603711806186, 672), (8149385906915065, 672), (8329698698080320, 672),
    (6972056218669119, 673), (8601933400052132, 673), (5342179037286106, 673), (4889631544149039, 673), (6972056218669119, 674), (8601933400052132, 674), (5342179037286106, 674), (8013268555929159, 674),
    (6972056218669119, 675), (4821572868656086, 675), (6451450050039099, 675), (8601933400052132, 675), (6972056218669119, 676), (4561269784341076, 676), (4821572868656086, 676), (7232359302984129, 676),
    (6972056218669119, 677), (4561269784341076, 677), (4691421326498581, 677), (6841904676511614, 677), (4561269784341076, 678), (4691421326498581, 678), (7982222122596883, 678), (4821572868656086, 678),
    (5196504278462463, 679), (6336821724547732, 679), (8112373664754388, 679), (4561269784341076, 679), (8364915140736329, 680), (5196504278462463, 680), (6336821724547732, 680), (6084280248565791, 680),
    (6780709709599396, 681), (8364915140736329, 681), (5196504278462463, 681), (4752616293410799, 681), (6780709709599396, 682), (8364915140736329, 682), (4974560285936631, 682), (4752616293410799, 682),
    (5085532282199547, 683), (8475887136999245, 683), (4974560285936631, 683), (6558765717073564, 683), (5085532282199547, 684), (8475887136999245, 684), (8420401138867787, 684), (5030046284068089, 684),
    (8448144137933516, 685), (6752966710533667, 685), (5057789283133818, 685), (5085532282199547, 685), (8448144137933516, 686), (5919249496366607, 686), (5057789283133818, 686), (5085532282199547, 686),
    (6336108103450137, 687), (8448144137933516, 687), (5919249496366607, 687), (7614426923766456, 687), (6336108103450137, 688), (8448144137933516, 688), (6127678799908372, 688), (8031285530849986, 688),
    (6336108103450137, 689), (7287911468920944, 689), (8448144137933516, 689), (5175875434437565, 689), (7868027803427230, 690), (5755991768943851, 690), (6336108103450137, 690), (7287911468920944, 690),
    (7868027803427230, 691), (5755991768943851, 691), (5465933601690708, 691), (6336108103450137, 691), (7868027803427230, 692), (8779016737042348, 692), (4845002835328733, 692), (6046049936196994, 692),
    (8323522270234789, 693), (7868027803427230, 693), (8779016737042348, 693), (6957038869812112, 693), (6128768085974202, 694), (8323522270234789, 694), (7868027803427230, 694), (6584262552781761, 694),
    (6128768085974202, 695), (8323522270234789, 695), (5259138227247688, 695), (6584262552781761, 695), (8758337199598046, 696), (5693953156610945, 696), (6128768085974202, 696), (5259138227247688, 696),
    (7443552642786124, 697), (8758337199598046, 697), (6128768085974202, 697), (5259138227247688, 697), (8100944921192085, 698), (7443552642786124, 698), (8758337199598046, 698), (6128768085974202, 698),
    (8100944921192085, 699), (5582664482089593, 699), (7443552642786124, 699), (8758337199598046, 699), (4980916540944308, 700), (6841804701640839, 700), (6240056760495554, 700), (5582664482089593, 700),
    (4980916540944308, 701), (6841804701640839, 701), (7471374811416462, 701), (8702692862337370, 701), (4980916540944308, 702), (5596575566404762, 702), (8716603946652539, 702), (6212234591865216, 702),
    (6533975188910612, 703), (5288746053674535, 703), (8087033836876916, 703), (4980916540944308, 703), (6533975188910612, 704), (8555733648129841, 704), (5288746053674535, 704), (6065275377657687, 704),
    (4900481391682959, 705), (8167468986138265, 705), (7310504512893764, 705), (6065275377657687, 705), (4900481391682959, 706), (8167468986138265, 706), (8361601317134053, 706), (6922239850902188, 706),
    (8264535151636159, 707), (6631041354408506, 707), (4900481391682959, 707), (8167468986138265, 707), (8264535151636159, 708), (4949014474431906, 708), (6631041354408506, 708), (4900481391682959, 708),
    (8264535151636159, 709), (5790027914420206, 709), (4949014474431906, 709), (7423521711647859, 709), (8264535151636159, 710), (5369521194426056, 710), (5790027914420206, 710), (8685041871630309, 710),
    (8264535151636159, 711), (5369521194426056, 711), (5579774554423131, 711), (8054281791639084, 711), (5369521194426056, 712), (5579774554423131, 712), (8054281791639084, 712), (5790027914420206, 712),
    (4698331045122799, 713), (5579774554423131, 713), (8725471940942341, 713), (4657900975810767, 713), (5810242949076222, 714), (6481433098379479, 714), (5139052799772965, 714), (4698331045122799, 714),
    (5810242949076222, 715), (8715364423614333, 715), (6481433098379479, 715), (7152623247682736, 715), (7598398760996906, 716), (4693277286458795, 716), (5810242949076222, 716), (8715364423614333, 716),
    (7598398760996906, 717), (6704320855036564, 717), (5810242949076222, 717), (8715364423614333, 717), (7151359808016735, 718), (7598398760996906, 718), (6704320855036564, 718), (5810242949076222, 718),
    (7151359808016735, 719), (5475279594257594, 719), (5028240641277423, 719), (7598398760996906, 719), (7151359808016735, 720), (5475279594257594, 720), (8827440021775876, 720), (8212919391386391, 720),
    (4944499802572766, 721), (7151359808016735, 721), (5475279594257594, 721), (6620580016331907, 721), (4944499802572766, 722), (7416749703859149, 722), (7151359808016735, 722), (4679109906730352, 722),
    (7284054755937942, 723), (4811804854651559, 723), (4944499802572766, 723), (7416749703859149, 723), (7284054755937942, 724), (6114277279255354, 724), (4944499802572766, 724), (7416749703859149, 724),
    (7284054755937942, 725), (6699166017596648, 725), (6114277279255354, 725), (4944499802572766, 725), (6991610386767295, 726), (7284054755937942, 726), (6699166017596648, 726), (6114277279255354, 726),
    (5316818882368133, 727), (8958846260337104, 727), (7284054755937942, 727), (5024374513197486, 727), (5316818882368133, 728), (8958846260337104, 728), (7284054755937942, 728), (5024374513197486, 728),
    (5316818882368133, 729), (7556530447452409, 729), (6154214634567714, 729), (6719134695252828, 729), (6436674664910271, 730), (5316818882368133, 730), (8393926199651990, 730), (5599278912710690, 730),
    (6436674664910271, 731), (5876746773639202, 731), (5316818882368133, 731), (5039351021439621, 731), (6436674664910271, 732), (5876746773639202, 732), (8815120160458803, 732), (6996602556181340, 732),
    (4687524025864936, 733), (7625897412684537, 733), (5876746773639202, 733), (8815120160458803, 733), (4687524025864936, 734), (7031286038797404, 734), (7625897412684537, 734), (5282135399752069, 734),
    (4687524025864936, 735), (8203167045263638, 735), (8797778419150771, 735), (5876746773639202, 735), (4687524025864936, 736), (8789107548496755, 736), (8797778419150771, 736), (4722207508481000, 736),
    (8793442983823763, 737), (8207502480590646, 737), (4687524025864936, 737), (8789107548496755, 737), (8793442983823763, 738), (4689691743528440, 738), (8207502480590646, 738), (7035621474124412, 738),
    (8793442983823763, 739), (4689691743528440, 739), (6448597112059543, 739), (7034537615292660, 739), (4689691743528440, 740), (6448597112059543, 740), (8206960551174770, 740), (5862656608826426, 740),
    (4689691743528440, 741), (6448597112059543, 741), (8793172019115825, 741), (4690775602360192, 741), (6448461629705574, 742), (7034673097646629, 742), (5862250161764519, 742), (4689691743528440, 742),
    (6448461629705574, 743), (7034673097646629, 743), (7620884565587684, 743), (5276038693823464, 743), (6448461629705574, 744), (8353682771102495, 744), (5129451956249708, 744), (5715663424190763, 744),
    (6448461629705574, 745), (5788956792977641, 745), (5129451956249708, 745), (7694177934374562, 745), (6448461629705574, 746), (7730824618768001, 746), (4506593803915214, 746), (5825603477371080, 746),
    (8701758531663181, 747), (5477527716810394, 747), (6448461629705574, 747), (4506593803915214, 747), (5962994673257984, 748), (8701758531663181, 748), (5477527716810394, 748), (6448461629705574, 748),
    (5962994673257984, 749), (8944492009886976, 749), (8701758531663181, 749), (5720261195034189, 749), (5962994673257984, 750), (8944492009886976, 750), (8459025053439386, 750), (5477527716810394, 750),
    (5217620339100736, 751), (8944492009886976, 751), (5980168572743847, 751), (7973558096991796, 751), (4844933172022112, 752), (8944492009886976, 752), (5251968138072462, 752), (4523767703401077, 752),
    (4658589588482800, 753), (8944492009886976, 753), (4523767703401077, 753), (4744459085912115, 753), (4565417796713144, 754), (8944492009886976, 754), (4685635093114185, 754), (4548379109919015, 754),
    (4518831900828316, 755), (8991077905771804, 755), (4548379109919015, 755), (4585228613350055, 755), (4518831900828316, 756), (8991077905771804, 756), (4505613377069025, 756), (4524173341476279, 756),
    (4507185426857109, 757), (9002724379743011, 757), (4524376160513880, 757), (4505309013681506, 757), (4507185426857109, 758), (9002724379743011, 758), (4503838508243340, 758), (4511808448956897, 758),
    (4507185426857109, 759), (9002724379743011, 759), (4513177679707380, 759), (4503838508243340, 759), (4507185426857109, 760), (4868456429360970, 760), (9002724379743011, 760), (4516465409060736, 760),
    (4879987748633955, 761), (4868341274662748, 761), (4856694800691541, 761), (4507185426857109, 761), (4879987748633955, 762), (7314158385965329, 762), (4868341274662748, 762), (4891634222605162, 762),
    (6097073067299642, 763), (4879987748633955, 763), (7325804859936536, 763), (4868341274662748, 763), (7928524282283776, 764), (6097073067299642, 764), (4879987748633955, 764), (5494353644952402, 764),
    (7012798674791709, 765), (7928524282283776, 765), (6097073067299642, 765), (6398432778473262, 765), (8994929745362653, 766), (7012798674791709, 766), (5030667604220765, 766), (5946393211712832, 766),
    (8994929745362653, 767), (4955327676427360, 767), (5030667604220765, 767), (8919589817569248, 767), (4955327676427360, 768), (5030667604220765, 768), (8919589817569248, 768), (5332027315394385, 768),
    (4707561292605992, 769), (5030667604220765, 769), (8919589817569248, 769), (4566981563489128, 769), (4583678100695308, 770), (5030667604220765, 770), (8919589817569248, 770), (4523488362606822, 770),
    (4521736504739966, 771), (5030667604220765, 771), (8981531413524590, 771), (4530290283708651, 771), (4521736504739966, 772), (5061638402198436, 772), (8981531413524590, 772), (4520395667604300, 772),
    (5070424635268240, 773), (5101395433245911, 773), (5039453837290569, 773), (4521736504739966, 773), (5070424635268240, 774), (7605636952902360, 774), (7636607750880031, 774), (5101395433245911, 774),
    (5070424635268240, 775), (8873243111719420, 775), (7636607750880031, 775), (5132366231223582, 775), (5070424635268240, 776), (8873243111719420, 776), (8270410830288561, 776), (5194307827178924, 776),
    (4753523095563975, 777), (8587312369992826, 777), (8873243111719420, 777), (4653417141703407, 777), (8730277740856123, 778), (8413376201151858, 778), (8096474661447593, 778), (4753523095563975, 778),
    (8730277740856123, 779), (8413376201151858, 779), (4523589640280194, 779), (7779573121743328, 779), (6468482920716026, 780), (8413376201151858, 780), (4523589640280194, 780), (6785384460420291, 780),
    (6468482920716026, 781), (7440929560933942, 781), (8413376201151858, 781), (4523589640280194, 781), (6954706240824984, 782), (6468482920716026, 782), (7440929560933942, 782), (5496036280498110, 782),
    (6711594580770505, 783), (6954706240824984, 783), (6468482920716026, 783), (5982259600607068, 783), (5216029680618738, 784), (6711594580770505, 784), (4972918020564259, 784), (8693382801031230, 784),
    (5216029680618738, 785), (6711594580770505, 785), (8693382801031230, 785), (4729806360509780, 785), (6398481270746183, 786), (7267819550849306, 786), (5529142990643060, 786), (5216029680618738, 786),
    (6398481270746183, 787), (7267819550849306, 787), (5529142990643060, 787), (8293714485964590, 787), (5016195523085418, 788), (6398481270746183, 788), (7267819550849306, 788), (5529142990643060, 788),
    (8906579032288892, 789), (5016195523085418, 789), (6398481270746183, 789), (7524293284628127, 789), (6961387277687155, 790), (8906579032288892, 790), (5016195523085418, 790), (7524293284628127, 790),
    (6961387277687155, 791), (4734742519614932, 791), (6679934274216669, 791), (8906579032288892, 791), (4594016017879689, 792), (6820660775951912, 792), (4734742519614932, 792), (6679934274216669, 792),
    (4594016017879689, 793), (8004346405855645, 793), (6820660775951912, 793), (4734742519614932, 793), (4594016017879689, 794), (6299181211867667, 794), (5777701647783422, 794), (5115495581963934, 794),
    (5446598614873678, 795), (4594016017879689, 795), (7482866841771400, 795), (5115495581963934, 795), (7317315325316528, 796), (5446598614873678, 796), (4594016017879689, 796), (8169897922310517, 796),
    (6381956970095103, 797), (7317315325316528, 797), (5446598614873678, 797), (8169897922310517, 797), (6381956970095103, 798), (8211285801424235, 798), (4552628138765971, 798), (5487986493987396, 798),
    (6381956970095103, 799), (7296621385759669, 799), (5467292554430537, 799), (4573322078322830, 799), (6381956970095103, 800), (6839289177927386, 800), (5924624762262820, 800), (4573322078322830, 800),
    (6381956970095103, 801), (6839289177927386, 801), (5924624762262820, 801), (8886937143394230, 801), (6381956970095103, 802), (4900800779529398, 802), (6839289177927386, 802), (5924624762262820, 802),
    (6381956970095103, 803), (8832357359859802, 803), (4900800779529398, 803), (7863113160660808, 803), (6381956970095103, 804), (8832357359859802, 804), (5897334870495606, 804), (4900800779529398, 804),
    (6381956970095103, 805), (5399067825012502, 805), (8832357359859802, 805), (4914445725413005, 805), (6381956970095103, 806), (5399067825012502, 806), (8098601737518753, 806), (7364846115177704, 806),
    (4540745441300677, 807), (7240279353806928, 807), (5399067825012502, 807), (8098601737518753, 807), (8160885118204141, 808), (4540745441300677, 808), (7240279353806928, 808), (5399067825012502, 808),
    (8160885118204141, 809), (6350815279752409, 809), (4540745441300677, 809), (5430209515355196, 809), (8160885118204141, 810), (7255850198978275, 810), (6350815279752409, 810), (4525174596129330, 810),
    (8160885118204141, 811), (7708367658591208, 811), (7255850198978275, 811), (4525174596129330, 811), (8160885118204141, 812), (7708367658591208, 812), (8613402577817074, 812), (6803332739365342, 812),
    (8160885118204141, 813), (6233793203556339, 813), (5781275743943406, 813), (7708367658591208, 813), (8160885118204141, 814), (4817729786619505, 814), (8671913615915109, 814), (8613402577817074, 814),
    (4562215537764021, 815), (5525761495087922, 815), (7197339160880240, 815), (5270247246232438, 815), (4562215537764021, 816), (7325096285307982, 816), (5525761495087922, 816), (8288642242631883, 816),
    (8224763680418012, 817), (4562215537764021, 817), (7325096285307982, 817), (5525761495087922, 817), (8674597377973027, 818), (8224763680418012, 818), (4562215537764021, 818), (7325096285307982, 818),
    (6168572760313509, 819), (6618406457868524, 819), (8224763680418012, 819), (4562215537764021, 819), (7421585069143268, 820), (5365394149038765, 820), (6168572760313509, 820), (6618406457868524, 820),
    (7421585069143268, 821), (5365394149038765, 821), (4963804843401393, 821), (6168572760313509, 821), (5566188801857451, 822), (7421585069143268, 822), (5365394149038765, 822), (7019995763505896, 822),
    (5566188801857451, 823), (7421585069143268, 823), (5465791475448108, 823), (7220790416324582, 823), (5566188801857451, 824), (7421585069143268, 824), (4588292005009871, 824), (5465791475448108, 824),
    (5566188801857451, 825), (6932636670719478, 825), (7421585069143268, 825), (5077240403433661, 825), (7177110869931373, 826), (5321714602645556, 826), (5566188801857451, 826), (6932636670719478, 826),
    (7177110869931373, 827), (5321714602645556, 827), (4516253568608595, 827), (7982571903968334, 827), (8507539520592762, 828), (5321714602645556, 828), (4516253568608595, 828), (7982571903968334, 828),
    (5584198410957770, 829), (8507539520592762, 829), (5846682219269984, 829), (5321714602645556, 829), (5584198410957770, 830), (8376297616436655, 830), (7045868965775266, 830), (8507539520592762, 830),
    (6315033688366518, 831), (5584198410957770, 831), (8376297616436655, 831), (7045868965775266, 831), (5949616049662144, 832), (6315033688366518, 832), (5584198410957770, 832), (8376297616436655, 832),
    (6132324869014331, 833), (5949616049662144, 833), (8924424074493216, 833), (6315033688366518, 833), (7619728881429867, 834), (6132324869014331, 834), (5949616049662144, 834), (8924424074493216, 834),
    (8363430887637635, 835), (7619728881429867, 835), (5205914043454376, 835), (8924424074493216, 835), (8735281890741519, 836), (8363430887637635, 836), (4834063040350492, 836), (8924424074493216, 836),
    (8735281890741519, 837), (8921207392293461, 837), (8549356389189577, 837), (4648137538798550, 837), (8828244641517490, 838), (8735281890741519, 838), (8642319139965548, 838), (4555174788022579, 838),
    (8828244641517490, 839), (8735281890741519, 839), (8642319139965548, 839), (8456393638413606, 839), (8828244641517490, 840), (6574702105750132, 840), (4507085071534716, 840), (6481739354974161, 840),
    (7701473373633811, 841), (8828244641517490, 841), (6574702105750132, 841), (4507085071534716, 841), (6057797847196278, 842), (7701473373633811, 842), (8828244641517490, 842), (4931026579312599, 842),
    (6057797847196278, 843), (7701473373633811, 843), (4672574450035672, 843), (4931026579312599, 843), (8394085072214114, 844), (6057797847196278, 844), (5365186148615975, 844), (4672574450035672, 844),
    (7225941459705196, 845), (8394085072214114, 845), (6057797847196278, 845), (4672574450035672, 845), (7225941459705196, 846), (7810013265959655, 846), (8394085072214114, 846), (6057797847196278, 846),
    (5419456094778897, 847), (7225941459705196, 847), (8394085072214114, 847), (4781114342361516, 847), (5419456094778897, 848), (7225941459705196, 848), (4808249315442977, 848), (6003527901033356, 848),
    (5419456094778897, 849), (7225941459705196, 849), (5113852705110937, 849), (6614734680369276, 849), (8879625129797515, 850), (7073139764871216, 850), (5266654399944917, 850), (5419456094778897, 850),
    (5343055247361907, 851), (8879625129797515, 851), (7073139764871216, 851), (5419456094778897, 851), (5343055247361907, 852), (7111340188579711, 852), (7149540612288206, 852), (5304854823653412, 852),
    (6227197717970809, 853), (5343055247361907, 853), (8917825553506010, 853), (5304854823653412, 853), (6227197717970809, 854), (5785126482666358, 854), (5343055247361907, 854), (4862783588348961, 854),
    (6227197717970809, 855), (5785126482666358, 855), (8677689723999537, 855), (6669268953275260, 855), (4559880479651994, 856), (7452443720985173, 856), (5785126482666358, 856), (8677689723999537, 856),
    (4559880479651994, 857), (6839820719477991, 857), (5172503481159176, 857), (5785126482666358, 857), (4559880479651994, 858), (6839820719477991, 858), (4866191980405585, 858), (5172503481159176, 858),
    (4559880479651994, 859), (6839820719477991, 859), (5853006349941788, 859), (7146132220231582, 859), (4559880479651994, 860), (6839820719477991, 860), (5206443414796891, 860), (5853006349941788, 860),
    (6023132067137441, 861), (8303072306963438, 861), (4559880479651994, 861), (7486383654622888, 861), (6023132067137441, 862), (8303072306963438, 862), (5614787740967166, 862), (4559880479651994, 862),
    (5087334110309580, 863), (6023132067137441, 863), (8303072306963438, 863), (4678989784139305, 863), (5087334110309580, 864), (7631001165464370, 864), (6023132067137441, 864), (6958930023965302, 864),
    (5087334110309580, 865), (8902834693041765, 865), (6958930023965302, 865), (6622894453215768, 865), (5087334110309580, 866), (8902834693041765, 866), (7294965594714836, 866), (4751298539560046, 866),
    (5087334110309580, 867), (8902834693041765, 867), (6191149852512208, 867), (5471224196036127, 867), (7906955101015027, 868), (5087334110309580, 868), (8902834693041765, 868), (8182909036565684, 868),
    (4589394314296211, 869), (5861227841873606, 869), (6635121573437632, 869), (5087334110309580, 869), (7520008235233014, 870), (4589394314296211, 870), (5861227841873606, 870), (8791841762810409, 870),
    (8349398431912718, 871), (7520008235233014, 871), (4589394314296211, 871), (5861227841873606, 871), (7934703333572866, 872), (8349398431912718, 872), (7520008235233014, 872), (6690618038553310, 872),
    (7934703333572866, 873), (8142050882742792, 873), (8349398431912718, 873), (7520008235233014, 873), (7934703333572866, 874), (8038377108157829, 874), (8142050882742792, 874), (7727355784402940, 874),
    (7934703333572866, 875), (6002864387472131, 875), (6106538162057094, 875), (5795516838302205, 875), (8952459693915715, 876), (4985108027129282, 876), (7934703333572866, 876), (5899190612887168, 876),
    (8952459693915715, 877), (6459905680351074, 877), (4985108027129282, 877), (7477662040693923, 877), (8952459693915715, 878), (5722506853740178, 878), (6459905680351074, 878), (4985108027129282, 878),
    (8952459693915715, 879), (6091206267045626, 879), (5722506853740178, 879), (8583760280610267, 879), (5906856560392902, 880), (8952459693915715, 880), (6091206267045626, 880), (5722506853740178, 880),
    (5906856560392902, 881), (8860284840589353, 881), (5999031413719264, 881), (6091206267045626, 881), (8906372267252534, 882), (5906856560392902, 882), (5952943987056083, 882), (8860284840589353, 882),
    (7406614413822718, 883), (8906372267252534, 883), (5906856560392902, 883), (8860284840589353, 883), (7406614413822718, 884), (8156493340537626, 884), (8906372267252534, 884), (5906856560392902, 884),
    (7406614413822718, 885), (7781553877180172, 885), (8156493340537626, 885), (6656735487107810, 885), (7594084145501445, 886), (7406614413822718, 886), (7781553877180172, 886), (7031674950465264, 886),
    (5648695676206402, 887), (7406614413822718, 887), (5836165407885129, 887), (7781553877180172, 887), (5648695676206402, 888), (8473043514309603, 888), (6527655045014560, 888), (7406614413822718, 888),
    (5648695676206402, 889), (8473043514309603, 889), (6088175360610481, 889), (6527655045014560, 889), (5648695676206402, 890), (8473043514309603, 890), (7280609437460042, 890), (8912523198713682, 890),
    (5648695676206402, 891), (8473043514309603, 891), (6464652556833222, 891), (7280609437460042, 891), (5648695676206402, 892), (8473043514309603, 892), (6056674116519812, 892), (6464652556833222, 892),
    (8677032734466308, 893), (5852684896363107, 893), (5648695676206402, 893), (8473043514309603, 893), (8677032734466308, 894), (5852684896363107, 894), (5648695676206402, 894), (4542505587389859, 894),
    (6507774550849731, 895), (8677032734466308, 895), (5852684896363107, 895), (7366853425493060, 895), (6507774550849731, 896), (6180229723606419, 896), (8677032734466308, 896), (8021943079979684, 896),
    (6344002137228075, 897), (8513260320844652, 897), (8349487907222996, 897), (6507774550849731, 897), (6344002137228075, 898), (8513260320844652, 898), (6262115930417247, 898), (8349487907222996, 898),
    (8472317217439238, 899), (6344002137228075, 899), (6384945240633489, 899), (8513260320844652, 899), (8472317217439238, 900), (6364473688930782, 900), (6384945240633489, 900), (6323530585525368, 900),
    (8472317217439238, 901), (7418395453185010, 901), (6364473688930782, 901), (5269608821271140, 901), (8472317217439238, 902), (7945356335312124, 902), (7418395453185010, 902), (6364473688930782, 902),
    (8472317217439238, 903), (8208836776375681, 903), (7945356335312124, 903), (7418395453185010, 903), (6222497692547650, 904), (8472317217439238, 904), (5959017251484093, 904), (7945356335312124, 904),
    (7347407454993444, 905), (6222497692547650, 905), (8472317217439238, 905), (5959017251484093, 905), (6784952573770547, 906), (7347407454993444, 906), (6222497692547650, 906), (5097587930101856, 906),
    (8621804437518908, 907), (6784952573770547, 907), (4948100710022186, 907), (5510555591245083, 907), (8621804437518908, 908), (6147754082507815, 908), (4948100710022186, 908), (5510555591245083, 908),
    (6466353328139181, 909), (8621804437518908, 909), (8303205191887542, 909), (6147754082507815, 909), (8462504814703225, 910), (6307053705323498, 910), (6466353328139181, 910), (8621804437518908, 910),
    (8462504814703225, 911), (5308977962041476, 911), (6307053705323498, 911), (6466353328139181, 911), (8462504814703225, 912), (5808015833682487, 912), (5308977962041476, 912), (7963466943062214, 912),
    (8462504814703225, 913), (7135260324192856, 913), (5308977962041476, 913), (7963466943062214, 913), (4894874652606797, 914), (8462504814703225, 914), (7135260324192856, 914), (5308977962041476, 914),
    (4894874652606797, 915), (6678689733655011, 915), (6222119143117166, 915), (5351445243144642, 915), (4894874652606797, 916), (5786782193130904, 916), (8005934224165380, 916), (5351445243144642, 916),
    (7788265749172249, 917), (4894874652606797, 917), (5786782193130904, 917), (8680173289696356, 917), (6341570200889523, 918), (7788265749172249, 918), (4894874652606797, 918), (5786782193130904, 918),
    (6341570200889523, 919), (7064917975030886, 919), (5618222426748160, 919), (5063434418989541, 919), (6341570200889523, 920), (7064917975030886, 920), (5618222426748160, 920), (8427333640122240, 920),
    (4937014594202483, 921), (6341570200889523, 921), (7064917975030886, 921), (5618222426748160, 921), (5639292397546003, 922), (4937014594202483, 922), (8469473581717926, 922), (4915944623404640, 922),
    (5639292397546003, 923), (5288153495874243, 923), (4937014594202483, 923), (4564805721732880, 923), (5639292397546003, 924), (5463722946710123, 924), (5288153495874243, 924), (4564805721732880, 924),
    (5551507672128063, 925), (5639292397546003, 925), (5463722946710123, 925), (4564805721732880, 925), (5595400034837033, 926), (5551507672128063, 926), (5507615309419093, 926), (4520913359023910, 926),
    (5573453853482548, 927), (5595400034837033, 927), (5551507672128063, 927), (4520913359023910, 927), (5573453853482548, 928), (8360180780223822, 928), (5595400034837033, 928), (5617346216191518, 928),
    (5573453853482548, 929), (8360180780223822, 929), (5617346216191518, 929), (8426019324287277, 929), (5573453853482548, 930), (6281108675845109, 930), (8360180780223822, 930), (6988763498207670, 930),
    (6623962996349147, 931), (5230599532978510, 931), (7674472139215746, 931), (5573453853482548, 931), (6623962996349147, 932), (5230599532978510, 932), (8017326459719784, 932), (7845899299467765, 932),
    (6623962996349147, 933), (4619631381419201, 933), (6012994844789838, 933), (5230599532978510, 933), (5621797188884174, 934), (6623962996349147, 934), (4619631381419201, 934), (5010829037324865, 934),
    (5621797188884174, 935), (8432695783326261, 935), (6623962996349147, 935), (7626128803814120, 935), (5621797188884174, 936), (8432695783326261, 936), (7528329389837704, 936), (4717430795395617, 936),
    (6575063289360939, 937), (5621797188884174, 937), (8432695783326261, 937), (7528329389837704, 937), (4692980941901513, 938), (7503879536343600, 938), (5621797188884174, 938), (8432695783326261, 938),
    (8444920710073313, 939), (4692980941901513, 939), (7503879536343600, 939), (5621797188884174, 939), (8444920710073313, 940), (6568950825987413, 940), (4692980941901513, 940), (5627909652257700, 940),
    (8444920710073313, 941), (7506935768030363, 941), (4689924710214750, 941), (8441864478386550, 941), (8444920710073313, 942), (8913913181094788, 942), (7975928239051838, 942), (4689924710214750, 942),
    (8444920710073313, 943), (8913913181094788, 943), (7975928239051838, 943), (7037943297008888, 943), (8444920710073313, 944), (6216442414799616, 944), (6685434885821091, 944), (8913913181094788, 944),
    (5336699502673505, 945), (8444920710073313, 945), (6216442414799616, 945), (6685434885821091, 945), (6890810106373409, 946), (5336699502673505, 946), (4662331811099712, 946), (7565177797947202, 946),
    (6890810106373409, 947), (6113754804523457, 947), (5336699502673505, 947), (4662331811099712, 947), (6890810106373409, 948), (6502282455448433, 948), (6113754804523457, 948), (4662331811099712, 948),
    (6696546280910921, 949), (6890810106373409, 949), (6502282455448433, 949), (4662331811099712, 949), (6696546280910921, 950), (6793678193642165, 950), (6599414368179677, 950), (4565199898368468, 950),
    (6745112237276543, 951), (6696546280910921, 951), (6647980324545299, 951), (4516633942002846, 951), (6720829259093732, 952), (6745112237276543, 952), (6696546280910921, 952), (4516633942002846, 952),
    (6720829259093732, 953), (6745112237276543, 953), (6769395215459354, 953), (6672263302728110, 953), (5040621944320299, 954), (8401036573867165, 954), (6769395215459354, 954), (5113470878868732, 954),
    (5040621944320299, 955), (5892867090798421, 955), (8401036573867165, 955), (8425319552049976, 955), (5466744517559360, 956), (7146951832332793, 956), (7573074405571854, 956), (5040621944320299, 956),
    (5466744517559360, 957), (8200116776339040, 957), (7146951832332793, 957), (8827159147106226, 957), (5466744517559360, 958), (8200116776339040, 958), (6093786888326546, 958), (5040621944320299, 958),
    (4783401452864440, 959), (8883459841033960, 959), (5040621944320299, 959), (8401036573867165, 959), (4783401452864440, 960), (8883459841033960, 960), (4984321250392565, 960), (4586349024117371, 960),
    (4612565686690710, 961), (8883459841033960, 961), (4843569515573230, 961), (4702817780753895, 961), (4527147803603845, 962), (8968877724120825, 962), (4562066045934560, 962), (4565933414715616, 962),
    (4527147803603845, 963), (8968877724120825, 963), (4587799287410267, 963), (4562066045934560, 963), (4527147803603845, 964), (7659217420305167, 964), (8968877724120825, 964), (4557231834958240, 964),
    (7630704507518076, 965), (7716122390604941, 965), (7545286624431211, 965), (4527147803603845, 965), (7630704507518076, 966), (7716122390604941, 966), (7801540273691806, 966), (7459868741344346, 966),
    (5723028380638557, 967), (7630704507518076, 967), (7801540273691806, 967), (5979282029899152, 967), (5723028380638557, 968), (6719575385621749, 968), (7630704507518076, 968), (4811899258742230, 968),
    (6221301883130153, 969), (8128978010009672, 969), (8627251512501268, 969), (5723028380638557, 969), (6221301883130153, 970), (8128978010009672, 970), (6470438634375951, 970), (8627251512501268, 970),
    (6221301883130153, 971), (8253546385632571, 971), (8378114761255470, 971), (6096733507507254, 971),
];
