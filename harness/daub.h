// Daubechies scaling filters by spectral factorisation (computed with mpmath at 120 digits), independent of the library tables
static const double DB2[] = { 0.48296291314453414, 0.83651630373780791, 0.22414386804201338, -0.12940952255126038 };
static const double DB3[] = { 0.33267055295008262, 0.80689150931109258, 0.45987750211849157, -0.13501102001025459, -0.085441273882026662, 0.035226291885709537 };
static const double DB4[] = { 0.2303778133088965, 0.71484657055291565, 0.63088076792985891, -0.027983769416859854, -0.18703481171909308, 0.030841381835560764, 0.0328830116668852, -0.010597401785069032 };
static const double DB5[] = { 0.16010239797419291, 0.60382926979718967, 0.72430852843777293, 0.13842814590132073, -0.24229488706638203, -0.032244869584638375, 0.077571493840045714, -0.0062414902127982743, -0.012580751999081999, 0.0033357252854737713 };
static const double DB6[] = { 0.11154074335010946, 0.49462389039845309, 0.75113390802109535, 0.31525035170919763, -0.22626469396543982, -0.12976686756726194, 0.097501605587323049, 0.027522865530305729, -0.03158203931748603, 0.00055384220116149614, 0.0047772575109455106, -0.0010773010853084796 };
static const double DB7[] = { 0.077852054085009179, 0.39653931948191731, 0.72913209084623512, 0.46978228740519312, -0.14390600392856498, -0.22403618499387498, 0.071309219266830265, 0.080612609151083072, -0.038029936935014414, -0.016574541630666881, 0.012550998556099841, 0.00042957797292136652, -0.0018016407040474909, 0.00035371379997452025 };
static const double DB8[] = { 0.05441584224310401, 0.31287159091429997, 0.67563073629728981, 0.58535468365420671, -0.015829105256349306, -0.28401554296154693, 0.00047248457391328277, 0.12874742662047846, -0.017369301001807546, -0.044088253930794752, 0.013981027917398282, 0.0087460940474057767, -0.0048703529934515743, -0.00039174037337694705, 0.00067544940645056937, -0.00011747678412476953 };
static const double DB9[] = { 0.038077947363878347, 0.24383467461259035, 0.60482312369011111, 0.65728807805130054, 0.13319738582500758, -0.29327378327917491, -0.096840783222976461, 0.14854074933810638, 0.030725681479333379, -0.067632829061329974, 0.00025094711483145196, 0.022361662123679097, -0.0047232047577513973, -0.0042815036824634298, 0.0018476468830562265, 0.00023038576352319597, -0.00025196318894271014, 3.9347320316271599e-5 };
static const double DB10[] = { 0.026670057900555554, 0.18817680007769149, 0.52720118893172559, 0.68845903945360357, 0.28117234366057746, -0.24984642432731538, -0.19594627437737704, 0.12736934033579326, 0.093057364603572351, -0.071394147166397087, -0.029457536821875813, 0.033212674059341002, 0.0036065535669561697, -0.010733175483330575, 0.0013953517470529012, 0.0019924052951850561, -0.00068585669495971163, -0.00011646685512928545, 9.3588670320069591e-5, -1.3264202894521245e-5 };
static const double DB20[] = { 0.00077995361366684632, 0.010549394624950398, 0.063423780459081515, 0.21994211355139705, 0.4726961853109017, 0.61049323893859382, 0.36150229873933106, -0.13921208801148387, -0.32678680043403497, -0.016727088309077008, 0.22829105081991632, 0.039850246457771202, -0.15545875070726796, -0.024716827338613584, 0.10229171917444256, 0.0056322468573074355, -0.06172289962468046, 0.0058746818118118265, 0.032294299530769582, -0.0087893249239015613, -0.01381052613715192, 0.0067216273022594568, 0.004420542387045791, -0.0035814942596096228, -0.00083156217282255692, 0.0013925596193231363, -5.3497598439976951e-5, -0.00038510474869921761, 0.00010153288973670291, 6.7742808283777296e-5, -3.7105861833947129e-5, -4.3761438621839968e-6, 7.2412482876736201e-6, -1.0119940100188862e-6, -6.8470795970005569e-7, 2.6339242262700011e-7, 2.0143220235505127e-10, -1.814843248299696e-8, 4.0561270555518328e-9, -2.9988364896193196e-10 };
static const double DB40[] = { 7.0901058659278723e-7, 1.8692336180810839e-5, 0.0002320951314106758, 0.0017981007546980892, 0.0096984778191784686, 0.038428136771422605, 0.11476551476914822, 0.25977786292593698, 0.4381608746916242, 0.51903208167031517, 0.35209587430051816, -0.028170555146057111, -0.31275809235868547, -0.21027586267320005, 0.1311980049595851, 0.24017738760081102, -0.01395074943205732, -0.2045253695122213, -0.038147287462726453, 0.16185596569804879, 0.052166029600482612, -0.1267323142934772, -0.047410984537435617, 0.099420123535421257, 0.034928362140642477, -0.077296175881412569, -0.020943753388564528, 0.058341015707548308, 0.0089500829140135837, -0.041794876905630197, -0.00059477594777777221, 0.027810379360334393, -0.0038880721020162247, -0.016821735735421062, 0.0052450565216581005, 0.0090185696622430882, -0.0046735731768795356, -0.0041244903960878894, 0.0033213080699422316, 0.0014839299562157729, -0.001974759731953972, -0.00031187373443757407, 0.00099291688804407332, -7.0848746549404655e-5, -0.00041816247184188433, 0.00012111298980957377, 0.00014252761156270762, -7.8784824127881618e-5, -3.566471897946645e-5, 3.629511755337447e-5, 4.0660179666249183e-6, -1.2888320241357537e-5, 1.6550257250159118e-6, 3.5078332868396775e-6, -1.2804314477881047e-6, -6.6863488870302583e-7, 4.8834652506691549e-7, 5.3612316791672759e-8, -1.274508929984344e-7, 1.7410694403047795e-8, 2.2884041448442448e-8, -8.7397284731041808e-9, -2.2733339236653049e-9, 2.0593886969298042e-9, -9.9627150703086068e-11, -2.9288371153505964e-10, 8.1339276862511501e-11, 1.9952985788930958e-11, -1.4414678660874875e-11, 1.0752965662607837e-12, 1.206682463299092e-12, -3.7146779207817696e-13, -1.3522696000451319e-14, 2.9538296603649141e-14, -5.8181048707950095e-15, -2.4502202834775991e-16, 3.0745679262737877e-16, -6.0233779324166934e-17, 5.5397391390658758e-18, -2.1012535076232193e-19 };
static const double *DB(int n) { switch (n) { case 2: return DB2; case 3: return DB3; case 4: return DB4; case 5: return DB5; case 6: return DB6; case 7: return DB7; case 8: return DB8; case 9: return DB9; case 10: return DB10; case 20: return DB20; case 40: return DB40; } return 0; }
