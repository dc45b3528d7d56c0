// Generated by tools/gen_ref.py; do not edit.
#ifndef REF_TABLEAUX_HPP
#define REF_TABLEAUX_HPP
#include <vector>
#include <string>
namespace ref {
struct Tableau { const char *name; int method; bool implicit; int order, order2; bool fsal;
	std::vector<std::vector<double>> A; std::vector<double> b, c, b2; };
inline const std::vector<Tableau> &all()
{
	static const std::vector<Tableau> T = {
	{"EXPLICIT_EULER", erk::EXPLICIT_EULER, false, 1, 0, false,
	 {{0.0}},
	 {1.0}, {0.0}, {}},
	{"RUNGE_KUTTA_4", erk::RUNGE_KUTTA_4, false, 4, 0, false,
	 {{0.0, 0.0, 0.0, 0.0},
	  {0.5, 0.0, 0.0, 0.0},
	  {0.0, 0.5, 0.0, 0.0},
	  {0.0, 0.0, 1.0, 0.0}},
	 {0.166666666666666666667, 0.333333333333333333333, 0.333333333333333333333, 0.166666666666666666667}, {0.0, 0.5, 0.5, 1.0}, {}},
	{"BOGACKI_SHAMPINE_32", erk::BOGACKI_SHAMPINE_32, false, 3, 2, true,
	 {{0.0, 0.0, 0.0, 0.0},
	  {0.5, 0.0, 0.0, 0.0},
	  {0.0, 0.75, 0.0, 0.0},
	  {0.222222222222222222222, 0.333333333333333333333, 0.444444444444444444444, 0.0}},
	 {0.222222222222222222222, 0.333333333333333333333, 0.444444444444444444444, 0.0}, {0.0, 0.5, 0.75, 1.0}, {0.291666666666666666667, 0.25, 0.333333333333333333333, 0.125}},
	{"CASH_KARP_54", erk::CASH_KARP_54, false, 5, 4, false,
	 {{0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.2, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.075, 0.225, 0.0, 0.0, 0.0, 0.0},
	  {0.3, -0.9, 1.2, 0.0, 0.0, 0.0},
	  {-0.203703703703703703704, 2.5, -2.59259259259259259259, 1.2962962962962962963, 0.0, 0.0},
	  {0.0294958043981481481481, 0.341796875, 0.0415943287037037037037, 0.400345413773148148148, 0.061767578125, 0.0}},
	 {0.0978835978835978835979, 0.0, 0.402576489533011272142, 0.21043771043771043771, 0.0, 0.28910220214568040655}, {0.0, 0.2, 0.3, 0.6, 1.0, 0.875}, {0.102177372685185185185, 0.0, 0.383907903439153439153, 0.244592737268518518519, 0.0193219866071428571429, 0.25}},
	{"DORMAND_PRINCE_54", erk::DORMAND_PRINCE_54, false, 5, 4, true,
	 {{0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.2, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.075, 0.225, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.977777777777777777778, -3.73333333333333333333, 3.55555555555555555556, 0.0, 0.0, 0.0, 0.0},
	  {2.9525986892242036275, -11.5957933241883859168, 9.82289285169943606158, -0.290809327846364883402, 0.0, 0.0, 0.0},
	  {2.84627525252525252525, -10.7575757575757575758, 8.90642271774347246045, 0.278409090909090909091, -0.273531303602058319039, 0.0, 0.0},
	  {0.0911458333333333333333, 0.0, 0.449236298292902066487, 0.651041666666666666667, -0.322376179245283018868, 0.130952380952380952381, 0.0}},
	 {0.0911458333333333333333, 0.0, 0.449236298292902066487, 0.651041666666666666667, -0.322376179245283018868, 0.130952380952380952381, 0.0}, {0.0, 0.2, 0.3, 0.8, 0.888888888888888888889, 1.0, 1.0}, {0.0899131944444444444444, 0.0, 0.45348906858340820605, 0.6140625, -0.271512382075471698113, 0.089047619047619047619, 0.025}},
	{"FEHLBERG_54", erk::FEHLBERG_54, false, 5, 4, false,
	 {{0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.25, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.09375, 0.28125, 0.0, 0.0, 0.0, 0.0},
	  {0.879380974055530268548, -3.27719617660446062813, 3.3208921256258534365, 0.0, 0.0, 0.0},
	  {2.03240740740740740741, -8.0, 7.17348927875243664717, -0.205896686159844054581, 0.0, 0.0},
	  {-0.296296296296296296296, 2.0, -1.38167641325536062378, 0.452972709551656920078, -0.275, 0.0}},
	 {0.118518518518518518519, 0.0, 0.518986354775828460039, 0.506131490342016657806, -0.18, 0.0363636363636363636364}, {0.0, 0.25, 0.375, 0.923076923076923076923, 1.0, 0.5}, {0.115740740740740740741, 0.0, 0.548927875243664717349, 0.53533138401559454191, -0.2, 0.0}},
	{"IMPLICIT_EULER", irk::IMPLICIT_EULER, true, 1, 0, false,
	 {{1.0}},
	 {1.0}, {1.0}, {}},
	{"RADAU_IIA_32", irk::RADAU_IIA_32, true, 3, 2, false,
	 {{0.416666666666666666667, -0.0833333333333333333333},
	  {0.75, 0.25}},
	 {0.75, 0.25}, {0.333333333333333333333, 1.0}, {}},
	{"RADAU_IIA_53", irk::RADAU_IIA_53, true, 5, 3, false,
	 {{0.196815477223660425868, -0.0655354258501983881085, 0.0237709743482201524204},
	  {0.394424314739087276997, 0.292073411665228463021, -0.0415487521259979301982},
	  {0.37640306270046727505, 0.512485826188421613839, 0.111111111111111111111}},
	 {0.37640306270046727505, 0.512485826188421613839, 0.111111111111111111111}, {0.15505102572168219018, 0.64494897427831780982, 1.0}, {}},
	{"RADAU_IIA_95", irk::RADAU_IIA_95, true, 9, 5, false,
	 {{0.0729988643179033243056, -0.0267353311079455718777, 0.0186769297639843544122, -0.0128791060933064398536, 0.00504283923388201520665},
	  {0.153775231479182468668, 0.14621486784749350665, -0.0364445689051280895267, 0.0212330631193047194215, -0.00793557990272877753262},
	  {0.140063045684809871514, 0.298967129491283479398, 0.167585070135248963442, -0.0339691016866177465719, 0.0109442887441922522745},
	  {0.144894308109534757537, 0.276500068760159227556, 0.325797922910421029985, 0.128756753254909761158, -0.0157089173788053283878},
	  {0.143713560791225941323, 0.281356015149462060192, 0.311826522975741254082, 0.223103901083570744403, 0.04}},
	 {0.143713560791225941323, 0.281356015149462060192, 0.311826522975741254082, 0.223103901083570744403, 0.04}, {0.0571041961145176821931, 0.27684301363812382768, 0.583590432368916820057, 0.860240135656219447848, 1.0}, {}},
	{"RADAU_IIA_137", irk::RADAU_IIA_137, true, 13, 7, false,
	 {{0.0375462649939213313337, -0.0140393345564604015376, 0.0103527896007423009368, -0.0081583225402750119092, 0.00638841387953468494376, -0.00460232677914865549935, 0.00182894256147064370404},
	  {0.0801475965156189677952, 0.0810620639858915366796, -0.0212379921207110349371, 0.0140002912388171189837, -0.0102341857300901638292, 0.00715346515136459049806, -0.00281263937240672334034},
	  {0.0720638469418819021134, 0.171068354983886619424, 0.109614564040072109233, -0.0246198717289840538623, 0.0147603770439508170732, -0.00957525939679140055633, 0.00367267839713830567157},
	  {0.0757051258198244204246, 0.154090155142171144646, 0.227107736673202386411, 0.117478187037024781988, -0.023810827153044173582, 0.0127099855336612056336, -0.00460884428128963344034},
	  {0.0739123421631918465408, 0.161355607615942432186, 0.20686724155210419782, 0.237007115342694234762, 0.103086793533813446624, -0.0188541391525804488401, 0.00585890097488879182398},
	  {0.0747055620597962301723, 0.158307223872468700658, 0.214153423267200031109, 0.219877847031860039987, 0.198752121680635269802, 0.069265501605509133231, -0.00811600819772829010788},
	  {0.0744942355560103179332, 0.159102115733650740872, 0.212351889502977804199, 0.22355491450728323475, 0.190474936822115576903, 0.119613744612656202894, 0.020408163265306122449}},
	 {0.0744942355560103179332, 0.159102115733650740872, 0.212351889502977804199, 0.22355491450728323475, 0.190474936822115576903, 0.119613744612656202894, 0.020408163265306122449}, {0.0293164271597848919721, 0.14807859966848429185, 0.336984690281154299097, 0.558671518771550132081, 0.769233862030054500917, 0.926945671319741114852, 1.0}, {}},
	{"LOBATTO_IIIA_43", irk::LOBATTO_IIIA_43, true, 4, 2, false,
	 {{0.0, 0.0, 0.0},
	  {0.208333333333333333333, 0.333333333333333333333, -0.0416666666666666666667},
	  {0.166666666666666666667, 0.666666666666666666667, 0.166666666666666666667}},
	 {0.166666666666666666667, 0.666666666666666666667, 0.166666666666666666667}, {0.0, 0.5, 1.0}, {}},
	{"LOBATTO_IIIA_127", irk::LOBATTO_IIIA_127, true, 12, 7, false,
	 {{0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	  {0.0328462643282926478815, 0.0593228940275514045042, -0.0107685944511892671056, 0.00559759178056977723067, -0.00348892997080746276648, 0.00221709658891453969973, -0.000838270442615104380113},
	  {0.018002223201815165704, 0.157701130641689042048, 0.102354812046861915214, -0.0184782592734590439831, 0.00957758010074140595429, -0.00568186456622437757297, 0.00209998111321878573423},
	  {0.0275297619047619047619, 0.127788255559837469587, 0.23748565272164544351, 0.121904761904761904762, -0.0216129621167141318014, 0.0106247681209455044187, -0.0037202380952380952381},
	  {0.0217095426963050237896, 0.144094888247007351578, 0.206295110504189905755, 0.262287783082982853507, 0.113517878558069396495, -0.0192881069609060680424, 0.00580730060770864381984},
	  {0.0246477942521389139039, 0.136195927091868434306, 0.219361620575738774475, 0.238211932028954032293, 0.226641285056120578815, 0.0790901296532315695012, -0.00903674051876883835774},
	  {0.0238095238095238095238, 0.138413023680782974005, 0.215872690604931311709, 0.243809523809523809524, 0.215872690604931311709, 0.138413023680782974005, 0.0238095238095238095238}},
	 {0.0238095238095238095238, 0.138413023680782974005, 0.215872690604931311709, 0.243809523809523809524, 0.215872690604931311709, 0.138413023680782974005, 0.0238095238095238095238}, {0.0, 0.084888051860716535064, 0.265575603264642893098, 0.5, 0.734424396735357106902, 0.915111948139283464936, 1.0}, {}},
	{"LOBATTO_IIIC_43", irk::LOBATTO_IIIC_43, true, 4, 2, false,
	 {{0.166666666666666666667, -0.333333333333333333333, 0.166666666666666666667},
	  {0.166666666666666666667, 0.416666666666666666667, -0.0833333333333333333333},
	  {0.166666666666666666667, 0.666666666666666666667, 0.166666666666666666667}},
	 {0.166666666666666666667, 0.666666666666666666667, 0.166666666666666666667}, {0.0, 0.5, 1.0}, {}},
	{"LOBATTO_IIIC_64", irk::LOBATTO_IIIC_64, true, 6, 3, false,
	 {{0.0833333333333333333333, -0.186338998124982474701, 0.186338998124982474701, -0.0833333333333333333333},
	  {0.0833333333333333333333, 0.25, -0.0942079307083087979144, 0.0372677996249964949402},
	  {0.0833333333333333333333, 0.427541264041642131248, 0.25, -0.0372677996249964949402},
	  {0.0833333333333333333333, 0.416666666666666666667, 0.416666666666666666667, 0.0833333333333333333333}},
	 {0.0833333333333333333333, 0.416666666666666666667, 0.416666666666666666667, 0.0833333333333333333333}, {0.0, 0.276393202250021030359, 0.723606797749978969641, 1.0}, {}},
	{"LOBATTO_IIIC_85", irk::LOBATTO_IIIC_85, true, 8, 4, false,
	 {{0.05, -0.116666666666666666667, 0.133333333333333333333, -0.116666666666666666667, 0.05},
	  {0.05, 0.161111111111111111111, -0.0690115410296431749169, 0.0520021659931149204781, -0.0214285714285714285714},
	  {0.05, 0.281309183323042778018, 0.202777777777777777778, -0.0528369611008205557957, 0.01875},
	  {0.05, 0.270220056229107301744, 0.367424239442341587615, 0.161111111111111111111, -0.0214285714285714285714},
	  {0.05, 0.272222222222222222222, 0.355555555555555555556, 0.272222222222222222222, 0.05}},
	 {0.05, 0.272222222222222222222, 0.355555555555555555556, 0.272222222222222222222, 0.05}, {0.0, 0.172673164646011428101, 0.5, 0.827326835353988571899, 1.0}, {}},
	{"GAUSS_LEGENDRE_42", irk::GAUSS_LEGENDRE_42, true, 4, 2, false,
	 {{0.25, -0.0386751345948128822546},
	  {0.538675134594812882255, 0.25}},
	 {0.5, 0.5}, {0.211324865405187117745, 0.788675134594812882255}, {}},
	{"GAUSS_LEGENDRE_147", irk::GAUSS_LEGENDRE_147, true, 14, 7, false,
	 {{0.0323712415422174233177, -0.0114510172831838702882, 0.00763320387242354492585, -0.00513373356322534498196, 0.00317505877368563763683, -0.00160681903704610585561, 0.000458109523749452982298},
	  {0.070043541378726076273, 0.0699263478723191669754, -0.0165900065788477711645, 0.00934962278344333207631, -0.00539709193189613785462, 0.00264584386673003737983, -0.000743850190171923617331},
	  {0.0621539357873498645359, 0.152005522057830992561, 0.0954575126262797362376, -0.0183752442154518373892, 0.00871256259847518198378, -0.00395358015881043812088, 0.00107671561562791673821},
	  {0.0663329286176847005521, 0.133595769223882288418, 0.207701880765970782089, 0.104489795918367346939, -0.0167868555134113096141, 0.00625692652075604553281, -0.00159044553324985391683},
	  {0.0636657674688069298971, 0.143806275903448772072, 0.182202462654084290491, 0.227354836052186531267, 0.0954575126262797362376, -0.0121528263131926586106, 0.00258854729708498209943},
	  {0.0654863332746067702526, 0.137206851877908296571, 0.19631211718445561033, 0.199629969053291361801, 0.20750503183140724364, 0.0699263478723191669754, -0.00530105829429122963768},
	  {0.064284373560685393653, 0.141459514781684439806, 0.187739966478873834838, 0.21411332539996003886, 0.183281821380135927549, 0.151303713027822204239, 0.0323712415422174233177}},
	 {0.0647424830844348466353, 0.139852695744638333951, 0.190915025252559472475, 0.208979591836734693878, 0.190915025252559472475, 0.139852695744638333951, 0.0647424830844348466353}, {0.0254460438286207377369, 0.129234407200302780068, 0.297077424311301416547, 0.5, 0.702922575688698583453, 0.870765592799697219932, 0.974553956171379262263}, {}},
	};
	return T;
}
} // namespace ref
#endif
