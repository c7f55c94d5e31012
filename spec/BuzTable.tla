------------------------------ MODULE BuzTable ------------------------------
\* casync's buzhash table, as pairs of 16-bit halves (high, low)
EXTENDS Integers
Buz == <<
       <<17803, 59218>>, <<49415, 18636>>, <<64444, 56248>>, <<28141, 23400>>,
       <<45322, 33461>>, << 8407, 22088>>, <<57285, 26207>>, <<43074, 34817>>,
       <<32447, 20881>>, <<33809, 13767>>, <<26060, 21427>>, <<10250, 22908>>,
       << 5878,   597>>, <<51084, 48190>>, <<10564,  5621>>, <<47416, 54420>>,
       <<60549, 50406>>, <<47059, 16092>>, <<58697, 46404>>, <<65005, 42410>>,
       <<34859, 62087>>, <<12566, 29564>>, << 1366, 39254>>, <<59596,  8040>>,
       << 2054, 44126>>, << 8865, 17475>>, << 5417, 32272>>, <<20688, 37095>>,
       <<19366,  3951>>, <<61401, 61863>>, <<23644, 34908>>, <<33352, 12179>>,
       <<39933, 31844>>, << 2878, 29302>>, <<62056, 36471>>, <<36781, 35516>>,
       <<45136, 38248>>, <<61869, 41631>>, <<42302, 65022>>, <<52011,  7424>>,
       <<62121, 59782>>, <<25699, 17195>>, <<38153, 16465>>, <<23074, 15058>>,
       <<39912, 16411>>, <<25061, 31179>>, << 6741, 27156>>, <<22592, 64962>>,
       <<37473, 56822>>, <<52704,   699>>, <<21059, 11184>>, <<48919, 14142>>,
       <<31612,  8751>>, <<10581, 60694>>, <<40720, 51801>>, <<59456, 50377>>,
       <<52395, 55302>>, << 5204, 16180>>, << 5218, 16762>>, << 3402,  8092>>,
       << 2174, 55589>>, <<55288, 62028>>, <<29496, 50213>>, <<53126, 51445>>,
       <<45457, 26061>>, <<39057, 50067>>, <<12883, 33964>>, <<  776, 17821>>,
       <<34324,  7550>>, <<51490,  4458>>, <<58111, 42678>>, <<21493, 10989>>,
       <<11480, 24983>>, <<62905, 62616>>, <<48945, 40079>>, <<57409,  8110>>,
       <<38782, 45452>>, <<55415,  2422>>, <<38963, 18026>>, <<50804, 57215>>,
       <<35881, 32069>>, <<36004, 36134>>, <<50334, 55522>>, <<29508, 63604>>,
       <<21871, 31175>>, <<27429, 60141>>, <<41022, 11074>>, <<63119, 26276>>,
       <<36491,  2466>>, <<62176, 58922>>, << 3386, 38918>>, <<38697, 58515>>,
       <<35954, 45308>>, << 5643, 38134>>, <<17678, 19773>>, <<31282,  3717>>,
       <<48888, 61665>>, << 8663, 13907>>, <<20029, 38778>>, << 7803, 14633>>,
       << 7366, 50969>>, <<48711, 36179>>, <<36213, 10249>>, <<59096, 49862>>,
       <<10079,  2194>>, <<51372, 49779>>, <<19650,  5504>>, <<60612, 42519>>,
       <<62967, 48752>>, <<59285,  9354>>, <<14170, 12265>>, <<16981, 28854>>,
       <<34968, 56568>>, <<56365, 38852>>, <<  262,  4427>>, <<13901, 49711>>,
       << 7692, 44319>>, <<48739, 32828>>, <<24425, 64194>>, <<19802, 64111>>,
       << 7104, 57269>>, <<64295, 13705>>, << 3748, 32635>>, <<15388, 11088>>,
       << 8626, 43314>>, <<27410,  9213>>, <<12263,  1704>>, <<63933, 27874>>,
       <<41576, 58958>>, <<59783, 62598>>, <<16044, 62819>>, << 7330,   396>>,
       <<26081, 33320>>, << 8711, 13834>>, <<22479,  5909>>, <<13507, 32043>>,
       << 8079, 15582>>, <<37814, 22479>>, <<12704,  6653>>, <<59038, 46889>>,
       <<35786, 31643>>, <<19613, 23533>>, <<10110, 48815>>, <<57560, 63662>>,
       <<53584, 33308>>, <<12600,  6257>>, <<44995, 61872>>, <<37501, 45864>>,
       <<59742, 65452>>, <<12378, 18365>>, <<17003, 41819>>, << 4659, 44863>>,
       <<26730, 23427>>, <<20704, 29413>>, <<55763, 47914>>, <<35823, 50293>>,
       <<18559,  3558>>, <<51341, 65417>>, <<48486, 19806>>, <<38683, 23832>>,
       <<25521, 18503>>, <<55251, 49614>>, <<32600, 15603>>, <<29387, 51977>>,
       <<49360, 43036>>, <<32675, 17051>>, <<59669, 35355>>, << 8798, 41370>>,
       <<55498, 40611>>, <<51043, 45698>>, <<47884, 25409>>, <<  523, 33427>>,
       <<54477, 10653>>, <<22735, 43000>>, <<37300, 61011>>, <<14308, 53568>>,
       <<38380, 30284>>, <<12535, 27398>>, <<24294, 36132>>, <<26524, 34401>>,
       <<42009, 31170>>, <<62134,  4740>>, <<20396,  5237>>, << 2779, 18937>>,
       << 6514, 31267>>, << 5543, 58228>>, <<50234,  6357>>, <<16305, 43635>>,
       <<13359, 50709>>, <<37452,  1939>>, <<48866, 55280>>, <<35367, 40425>>,
       <<19106, 55052>>, <<57933, 54143>>, <<48774, 11275>>, << 6012,  8898>>,
       <<21384, 58862>>, <<52618, 29968>>, <<63745, 46333>>, <<56257, 15804>>,
       <<27659, 44635>>, <<25839, 59591>>, <<18608,  8313>>, <<32819,  6729>>,
       <<51773, 35558>>, <<62292, 24976>>, <<65239,  4235>>, <<50331, 37915>>,
       <<12986, 62633>>, <<60291, 14922>>, <<34979, 61861>>, <<14993, 52746>>,
       <<15554, 32161>>, <<28946, 59012>>, <<18992, 38577>>, <<14228, 22348>>,
       <<41928, 46835>>, << 7457, 14657>>, <<28170, 11776>>, << 9012, 31217>>,
       << 3916, 55343>>, <<24723, 60882>>, <<23933,  8350>>, <<17999, 58137>>,
       <<54492, 44190>>, << 3512, 17867>>, <<64350, 19395>>, <<57381, 27873>>,
       << 2555, 20177>>, << 2324, 48670>>, <<42429, 45763>>, <<50923, 22459>>,
       <<12338,   848>>, <<16185, 32401>>, <<42615, 37308>>, <<34492,  3628>>,
       <<61344, 42978>>, <<59903, 30019>>, <<59187, 24876>>, <<53637, 35195>>,
       <<12958, 21384>>, <<37341,  9067>>, <<11979,  3475>>, <<62680, 10813>>,
       <<13749, 49215>>, <<58598,  1776>>, << 1458,  6211>>, <<14260, 22884>>,
       <<24319,  8948>>, <<24615, 62668>>, <<30487, 35644>>, <<44624, 28977>>,
       <<31735, 51900>>, <<63937, 36198>>, <<22842, 56933>>, <<55645, 57105>>
>>
=============================================================================
