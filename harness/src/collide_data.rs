// Generated by tools/gen_collisions.py
/// Families of sets of component ids; the sets of a family share (nearly all) one identifier.
pub static FAMILIES: &[&[&[u16]]] = &[
    &[
        &[984, 42197, 64537],
        &[25995, 48792, 51552],
        &[28348, 55188, 61271],
        &[12555, 40719, 49753],
        &[2498, 44150, 46864],
        &[178, 39142, 64228],
        &[19257, 39686, 63842],
        &[13940, 37253, 64813],
        &[19587, 34301, 52124],
    ],
    &[
        &[4379, 11411, 50348, 55765],
        &[25422, 25895, 41893, 54019],
        &[4452, 8035, 35780, 36720],
        &[2377, 19803, 32129, 63412],
        &[21665, 23436, 48413, 49572],
        &[19799, 29613, 45143, 60550],
        &[21461, 26763, 35608, 53033],
        &[20683, 26528, 55007, 60425],
        &[46, 15754, 38539, 55890],
        &[6978, 8309, 43942, 52672],
        &[12121, 20137, 40631, 55687],
        &[21554, 28809, 38054, 52259],
    ],
    &[
        &[3679, 4272, 33373, 58459],
        &[4827, 18776, 37146, 51904],
        &[2199, 14786, 40193, 46229],
        &[20438, 26519, 32117, 37062],
        &[10504, 29133, 36470, 63851],
        &[16426, 29366, 33137, 63231],
        &[14252, 26911, 38229, 47027],
        &[22804, 25437, 52085, 65315],
        &[21715, 22581, 55797, 64794],
        &[7210, 21748, 46701, 46929],
        &[5787, 16089, 35863, 65131],
    ],
    &[
        &[7238, 26375, 42917, 52217, 60609],
        &[14771, 23444, 32877, 37230, 49623],
        &[2251, 9217, 52561, 54607, 55742],
        &[4337, 22187, 35149, 52234, 63155],
        &[10051, 12260, 34600, 37632, 45784],
        &[26958, 30325, 32993, 42481, 47754],
        &[5680, 14490, 44655, 46187, 50957],
        &[23592, 28441, 43612, 47626, 53205],
        &[20604, 24899, 37256, 38663, 41970],
        &[5485, 24115, 35551, 50672, 57595],
        &[5869, 13226, 32094, 37347, 40870],
        &[14720, 16819, 34144, 60882, 61772],
    ],
    &[
        &[4379, 18042, 42071, 56935, 61045],
        &[14771, 30514, 34876, 36139, 61502],
        &[6317, 22692, 34960, 53422, 63104],
        &[7122, 24460, 33908, 39349, 61087],
        &[1453, 21796, 33142, 33996, 41077],
        &[16785, 23573, 39937, 53179, 58650],
        &[18718, 19343, 35065, 54624, 60050],
        &[15018, 25940, 44412, 45788, 50351],
        &[8899, 24285, 33925, 44667, 64342],
        &[3381, 31742, 35373, 46944, 61044],
        &[8609, 27534, 50769, 57199, 57655],
    ],
    &[
        &[5898, 8668, 28722, 45789, 49717, 62195, 65291],
        &[3610, 18905, 23488, 35671, 50677, 52225, 59089],
        &[2247, 22032, 25266, 44094, 46005, 53587, 59642],
        &[5110, 7136, 18854, 35779, 44530, 58188, 59516],
        &[14445, 21002, 26157, 38431, 42229, 43446, 56510],
        &[3387, 25617, 25814, 35313, 57793, 62885, 65222],
        &[8522, 12661, 26713, 32773, 45432, 46329, 59049],
        &[15291, 18038, 22044, 36791, 37416, 39186, 40597],
        &[18618, 25673, 26008, 45899, 50412, 56710, 62424],
        &[2098, 2807, 26995, 44444, 44588, 45775, 63954],
        &[1106, 16393, 21620, 40479, 40780, 63301, 65340],
        &[18286, 20402, 27393, 34302, 50486, 50680, 53895],
    ],
    &[
        &[5527, 13712, 27141, 33910, 41288, 43937, 57444],
        &[3686, 25476, 28017, 46372, 47579, 55742, 63158],
        &[13085, 17277, 27289, 44525, 45494, 49252, 63878],
        &[2462, 25499, 26344, 37622, 43729, 53658, 65144],
        &[8792, 12609, 29567, 34761, 38750, 46142, 54147],
        &[6030, 7485, 13107, 56379, 62089, 64178, 65168],
        &[2212, 20448, 29457, 48889, 58496, 59657, 64272],
        &[9576, 16240, 30223, 33603, 48130, 49207, 61412],
        &[6193, 17511, 21395, 45180, 47157, 51983, 60586],
        &[10947, 15526, 17832, 32803, 50489, 52933, 63205],
        &[10804, 20375, 26407, 32567, 35044, 48307, 62378],
    ],
    &[
        &[484, 13527, 17269, 25838, 28179, 44489, 45734, 46432, 50867, 52661],
        &[3909, 4474, 10250, 18884, 19383, 41927, 44129, 44814, 48836, 60742],
        &[10382, 15262, 15885, 15940, 21205, 34829, 39977, 40874, 56306, 58402],
        &[1478, 16705, 19793, 19889, 31974, 41647, 41869, 42401, 54695, 63001],
        &[1595, 2421, 5585, 12974, 17205, 32122, 40847, 51655, 59617, 60610],
        &[814, 7870, 10408, 19773, 29775, 37508, 47378, 51923, 61645, 64150],
        &[1555, 5984, 15558, 24515, 27592, 47954, 50257, 60343, 62596, 63366],
        &[11061, 12085, 15165, 26431, 27860, 34386, 38559, 38757, 51548, 55235],
        &[4082, 5539, 8619, 14413, 20617, 39697, 42880, 46974, 59658, 64248],
        &[10695, 18393, 25117, 26937, 29061, 32250, 43740, 44712, 50708, 56542],
        &[1258, 1557, 5998, 13900, 21456, 34329, 41008, 51933, 56007, 64706],
        &[4202, 15294, 21380, 22859, 28521, 36092, 40065, 44886, 50291, 55017],
    ],
    &[
        &[3788, 5523, 18521, 20641, 31826, 35410, 41541, 42221, 45134, 47265],
        &[5472, 9841, 18558, 18633, 21896, 45050, 47296, 51472, 57319, 64009],
        &[10015, 11282, 16161, 23196, 26669, 35456, 35689, 58332, 64584, 65183],
        &[6266, 8736, 13810, 28810, 31895, 38502, 44443, 46376, 52169, 59845],
        &[14220, 14267, 18085, 24645, 26695, 32238, 40612, 42204, 46815, 49932],
        &[21432, 21460, 24215, 26980, 31330, 45198, 47035, 48541, 56808, 57346],
        &[720, 1370, 7728, 11819, 15371, 35912, 38618, 38846, 44398, 45451],
        &[8941, 11758, 12493, 13514, 28886, 43169, 45387, 45560, 50747, 64147],
        &[4279, 13320, 15256, 15466, 20039, 56994, 59433, 63461, 65124, 65137],
        &[300, 2602, 7977, 12001, 23745, 34450, 39921, 52897, 55378, 56003],
        &[2828, 15637, 17755, 19353, 27654, 34487, 37132, 56400, 57647, 64663],
    ],
    &[
        &[1370, 15866, 16063, 21429, 24376, 30092, 33772, 37827, 38836, 47054, 59215, 61973, 63419],
        &[2667, 5486, 10691, 13870, 18493, 21602, 32373, 34761, 36789, 50290, 54907, 54935, 64418],
        &[2420, 10558, 11512, 12888, 15947, 30225, 41017, 42790, 46752, 48953, 58716, 60176, 62569],
        &[2207, 6861, 20192, 20334, 23183, 30096, 34879, 38416, 39982, 45311, 48316, 58050, 65291],
        &[380, 771, 3014, 10377, 15222, 28673, 32678, 36533, 40255, 45886, 49880, 52493, 63912],
        &[1294, 14555, 21425, 22114, 22211, 28726, 32382, 52393, 61036, 61579, 62249, 63874, 65111],
        &[10279, 16691, 23643, 23801, 26494, 28166, 35615, 39908, 47887, 50244, 52490, 52990, 62154],
        &[2275, 18387, 19728, 25823, 28718, 29983, 37190, 37324, 41711, 41984, 48357, 48705, 53404],
        &[2461, 4235, 14787, 16522, 27664, 30227, 37530, 38363, 47379, 60386, 64367, 64699, 64746],
        &[1513, 7977, 9655, 16075, 20843, 30751, 35141, 39334, 39518, 39787, 43375, 44890, 50507],
        &[1340, 2680, 17499, 19179, 22808, 26519, 33787, 37674, 38601, 42518, 57898, 59412, 59606],
        &[10633, 12113, 14750, 16892, 20691, 29133, 32259, 36673, 41621, 47502, 48498, 56617, 62141],
    ],
    &[
        &[19278, 21377, 23444, 24048, 26242, 27073, 34779, 36274, 45929, 55399, 59006, 60188, 63695],
        &[6855, 17978, 24880, 27975, 28166, 28578, 38906, 42267, 44463, 50849, 57563, 59656, 60293],
        &[3418, 3893, 7211, 9609, 16016, 23776, 44758, 50781, 52594, 55898, 56579, 59934, 60906],
        &[3388, 5012, 11861, 17494, 25652, 25912, 34077, 37132, 37513, 45257, 54312, 54585, 63453],
        &[234, 9737, 10301, 17168, 21484, 31828, 38832, 41786, 47394, 51488, 52843, 55299, 57953],
        &[1148, 11099, 18511, 20205, 25715, 30401, 36547, 39522, 41841, 44870, 49978, 53778, 54916],
        &[3704, 4627, 15299, 22025, 27047, 28344, 33646, 36858, 37119, 45179, 60101, 62653, 62836],
        &[13670, 16107, 22233, 23118, 25113, 31290, 39370, 43947, 45065, 45734, 48724, 51128, 63919],
        &[2602, 8697, 9234, 15470, 18505, 28633, 35509, 36033, 47243, 51433, 52551, 59955, 65245],
        &[379, 4083, 5988, 10531, 14167, 15039, 33940, 35806, 45232, 52375, 54732, 60220, 62703],
        &[787, 10341, 14537, 23284, 28326, 29081, 39340, 41222, 41432, 53139, 56914, 59417, 64425],
    ],
    &[
        &[1761, 11694, 13499, 14756, 21773, 24731, 30206, 37732, 39927, 44633, 45662, 47160, 52392, 56841],
        &[1615, 7326, 12692, 19362, 24141, 29991, 30564, 33836, 34280, 34485, 36144, 46962, 59098, 59317],
        &[2936, 5848, 8012, 9955, 24070, 27990, 29697, 36334, 36973, 39477, 41299, 45949, 48064, 49264],
        &[1097, 1310, 17063, 26402, 28226, 28477, 30521, 32721, 39961, 45648, 47558, 55928, 58047, 60650],
        &[9915, 14178, 14474, 15881, 16228, 21601, 29145, 37363, 41939, 50503, 60800, 61097, 61476, 64630],
        &[62, 1641, 9614, 12149, 18409, 19663, 27545, 43533, 45901, 47547, 48307, 52033, 60127, 62358],
        &[9531, 17838, 25438, 25702, 26512, 27267, 30261, 34336, 35744, 37185, 41681, 48699, 55156, 55584],
        &[991, 2610, 12076, 12514, 16348, 16693, 21567, 37429, 40897, 47449, 47890, 49011, 51939, 61235],
        &[1004, 6739, 10101, 15024, 15899, 22612, 25765, 42763, 48556, 49417, 55995, 56696, 61079, 63568],
        &[3011, 6932, 10595, 12721, 20022, 25901, 31458, 41361, 47078, 47420, 52412, 53489, 55857, 65504],
        &[15746, 18037, 22996, 24335, 26036, 26157, 26497, 35666, 43909, 51744, 52482, 57132, 60952, 62630],
        &[1743, 8986, 12907, 13849, 16399, 27509, 28932, 41426, 42430, 49214, 49524, 52376, 57329, 61005],
    ],
    &[
        &[1683, 12464, 15134, 16656, 24197, 26009, 28171, 32101, 35287, 36489, 43978, 45238, 50157, 57101],
        &[4479, 5150, 6983, 11881, 27907, 30660, 30754, 35813, 47030, 47422, 51692, 55965, 58775, 58905],
        &[1246, 5025, 8680, 10029, 14046, 15799, 23916, 36923, 42322, 46254, 50089, 54306, 59797, 64876],
        &[4030, 5083, 13957, 19592, 26661, 30901, 31881, 39131, 39662, 43117, 47413, 52312, 61427, 62006],
        &[2250, 11027, 12435, 14449, 17261, 22828, 23596, 37922, 38227, 48884, 49046, 51539, 54971, 63299],
        &[5041, 5839, 10165, 10284, 13634, 20838, 29691, 40987, 48399, 50277, 52835, 58354, 58675, 64965],
        &[937, 8982, 13103, 19541, 23139, 23416, 26150, 33412, 34883, 35396, 42346, 42649, 52966, 53248],
        &[3162, 6063, 18011, 18633, 23496, 25457, 27847, 33411, 34314, 35164, 46849, 51144, 51696, 59892],
        &[6689, 7174, 9537, 18472, 19655, 21461, 21757, 34627, 47518, 47700, 49236, 56011, 58305, 62194],
        &[1183, 1754, 2266, 9940, 14463, 22104, 23952, 38695, 41154, 46246, 47211, 53656, 54068, 60254],
        &[1741, 6914, 8299, 10987, 13218, 14926, 20932, 35106, 36783, 50655, 51356, 55783, 57097, 65135],
    ],
];
