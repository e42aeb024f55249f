// The English word list (frozen: recovery phrases written down years ago must keep working).
// Each entry is value * 2^16 + length, see bytes.qnt; generated once from the published list.
module wordlist {
  pure val w0: List[int] = [1796423243815929643015,1796425493438279516167,107075353247748,27411303592361989,27411303608156165,7017298048878641158,7017298091894243334,459885649157753387876360,7017298117664178182,27411329327628293,7017561931753127942,459902939868721948393480,1796495865532430680071,7017562000471687174,1796497266241658224647,107079597817860,459903807954107137982472,1796499812727700914183,7017578467377217542,418280374275,7017580640563232774,27412424478031877,1796500653836933988359,7017580691867828230,27413442402189317]
  pure val w1: List[int] = [418296102915,7017844523152965638,1796568207831344545799,7017851172030775302,27413493824356357,27413528234426373,1796573255727613018119,7017864314361282566,1796644202763467816967,7018409637870436358,7018409698150055942,7018422832009052166,27416740819238917,418346500099,27416758083387397,27416813765984261,27417857375862789,418380578819,418380906499,1796932434295117840391,27419017201647621,27422238528307205,27422242873606149,1797144383822953709575,27422255708635141]
  pure val w2: List[int] = [27422272670007301,418430844931,27422285555630085,27422285723271173,7020106244609540102,27422298590216197,27422302784258053,1797148594922239623175,107118421016580,27422319914909701,7020117179696873478,1797215883951812509703,1797215890565943984135,27423398101975045,7020389944295424006,7020396532623212550,1797287932835623337991,7020658169314672646,1797288492401058643975,27424463103590405,27424463220178949,27424463322152965,7020664787624001542,27424480400048133,460106648394647197777928]
  pure val w3: List[int] = [7020670319541878790,1797291882208140853255,7020675825757454342,1797293273116269674503,1797293277527318790151,1797294403375670558727,418465251331,27426636575277061,1797435988630222471175,7021235399799472134,27426700898140165,1797436276702519296007,27426709438201861,107143921926148,7021784120659476486,107143955021828,27428852710047749,27428861417684997,418531573763,27428886918987781,27428887087677445,107144090812420,7021797319177928710,1797580936144304275463,7021800549078269958]
  pure val w4: List[int] = [7021800566307487750,27428908562841605,418532032515,460180864885207988437000,7021802765281394694,1797581523287993417735,418548219907,7022079824763289606,1797653275243468554247,27430012201467909,7022083140746477574,7022083192184438790,7022084235861229574,1797722248638804328455,107152713515012,7022365680606052358,7022365697970012166,460217759514734392311816,1797725632918130524167,1797792907671148298247,27432146867322885,7022632948099973126,107156992163844,7022647185849319430,107157092499460]
  pure val w5: List[int] = [7022647241650077702,1797865525981621846023,1797868324238664859655,27433293622542341,27434333038247941,27434333155688453,107165364322308,1797937584735401607175,27434354681315333,1797939277923262660615,107169793114116,108170403446788,464588412583098790838280,27691627416780805,27691631576940549,422540935171,1814801012269441679367,1814801014472945762311,108170570366980,7089067558001639430,7089068653200605190,7089068708885299206,422541656067,7089073068395003910,1814802707660638388231]
  pure val w6: List[int] = [7089073124111286278,108170687348740,27691696034873349,7089074193558667270,7089075331841458182,27696016671637509,108187565817860,7090180345457868806,1815086709401136201735,7090182518592569350,108187632402436,7090185817211338758,27696042542497797,7090187956172161030,7090187990397616134,1815089251403350474759,27696064118587397,108187750760452,27696072506212357,1815089809959335231495,108187868200964,7090201222975127558,7090201231631712262,1815091518596042326023,7090206707865092102]
  pure val w7: List[int] = [1815374966088140128263,422674956291,108204912869380,108204963135492,1815378329545666527239,108205030244356,27700488017805317,7091327131538554886,27703713253228549,27703713269612549,27703713420607493,1815590563859915866119,27703713522253829,27703730399543301,27703730702057477,27703747797057541,27703773583638533,1815594510041675005959,7092166063439544326,108217965543428,108217966395396,27703799420813317,27707012039311365,108230515884036,108230566543364]
  pure val w8: List[int] = [108230649577476,108230716030980,108230733004804,27707067925200901,108230750175236,27707072186679301,7093013713656086534,7093013735281197062,7093013773953728518,108230817808388,7093015981566263302,7093017055106236422,422776930307,422776995843,1816022897329515528199,27710310423855109,27710310507085829,27710310591954949,27710310641369093,27710327468851205,7093843849581494278,27710344682733573,7093848243014270982,27710344715960325,7093848255916933126]
  pure val w9: List[int] = [27710344867020805,27710344951169029,464902870513919235522568,7093854870115844102,7093854883352477702,27710370653995013,1816026856658002116615,27710370788278277,27710396490579973,7094684962856960006,27713621760475141,7094687183238594566,1816240480742215188487,27713643368153093,108256469057540,108256469647364,7094696000806453254,7094698165586427910,7094698195534610438,7094702563516088326,7094702576401252358,27713682141347845,422877265923,464958500677418172481544,108256588005380]
  pure val w10: List[int] = [7094704831259082758,27713711971106821,108256705511428,1833244942637128286215,27973097997860869,27973098047602693,7161114234333626374,109269997649924,109270064758788,109270081994756,109270082060292,7161125164973883398,109270099034116,426836361219,27973149403119621,7161126255678193670,27973149454303237,7161126303090737158,27973149637541893,7161126337215922182,7161126350335377414,1833248882191669460999,1833248891064887803911,1833248903078045679623,426836623363]
  pure val w11: List[int] = [7161130649597640710,109270182133764,27973166683848709,7161130709559803910,27973166869053445,109270183182340,109270198976516,109270199173124,7161131779157327878,7161131826367758342,7161131830478635014,426836754435,1833250008134576439303,27973175206215685,469312003202854109642760,7161132925879386118,7161133969490313222,27973179769421829,1833250310487389634567,109270249308164,1833535154367710560263,7162249965370671110,7162251064814862342,7162252224573407238,1833536570590295031815]
  pure val w12: List[int] = [7162256562154373126,1833537696404150812679,27980790284550149,27980790334423045,469439763578752953352200,7163082334141743110,27980790385278981,1833749079795151536135,7163082351321612294,27980790451470341,109299962740740,27980807330070533,27980807363297285,7163086693734875142,109300028932100,7163086749553983494,27980807632322565,1833751317262659092487,27980824576393221,27980824693702661,1833751328270660993031,7163097705762586630,7163097731800825862,1833753863744540311559,1833754694962496471047]
  pure val w13: List[int] = [27980876267323397,27980876334628869,27981915431763973,469459147336548638130184,7163382453655371782,1833826477742935113735,109304576802820,27981979990097925,27985188330733573,109317142347780,1834037312323099099143,109317142806532,109317142937604,27985205376450565,27985205661466629,7164212666422132742,27985222589677573,7164216991605325830,27985222639681541,27985222756859909,7164217030175031302,109317276565508,27985248359481349,109317376638980,27985248627523589]
  pure val w14: List[int] = [27985248644497413,27985248661012485,27985248695222277,109317476974596,27985274297384965,1834042942969372344327,7164230249984032774,27988486764625925,27988487033847813,1834254044778357587975,109330076860420,7165058122143563782,109330161205252,109330161336324,1834256574715656404999,27988534211248133,7165064783772647430,1834256845212880273415,109330227855364,1834256849636764680199,27988538404569093,7165065848958091270,1834256860571684634631,1834257127770256834567,1834257128938236280839]
  pure val w15: List[int] = [1834257131085971128327,469569825849323463835656,1834257139864633081863,469569829217123049799688,1834257146517738225671,469569830061590895198216,109330261803012,109330261868548,7165069160210366470,109330279497732,27988559745777669,109330311741444,109330312331268,1834258270162586435591,109330329501700,7165073575604256774,27988572663971845,1834259110254146551815,7165074657885093894,7165074666592468998,7165074670720253958,27988576993148933,7165079051770855430,27991785299705861,7165897041043062790]
  pure val w16: List[int] = [27991785350627333,109342911954948,27991785483862021,27991785567944709,7165897109645950982,27991785635315717,27991785686499333,27991802446151685,7165901439040225286,27991802513129477,109342979719172,1834471893203038765063,27991819826823173,27991819928207365,7165905905805099014,109343147032580,27991845698207749,7165912507069497350,27991845764333573,1834475270894101725191,27991871232671749,7165919052867895302,1834475281859337322503,7165919074074492934,27991871467290629]
  pure val w17: List[int] = [427122294787,1834476414433439252487,109355813109764,1834688929144947146759,427172036611,469680649018263180935176,1834690605874460950535,1834690615726998552583,1834690617908757659655,27995157167407109,1834690886224055238663,7166761325952827398,109356115099652,27999490621636613,431130673155,7233182741647654918,110369610661892,28254624412925957,7233183866896384006,7233188273683103750,110369710800900,474034442307388514107400,110369778302980,431132049411,110386588942340]
  pure val w18: List[int] = [7234296547144695814,7234296619975507974,7234297646387888134,474106931689460964917256,7234297680747626502,1851980209591559716871,474106934509704246001672,474106935339835508195336,110386656444420,1851981046341467176967,7234300979450281990,110386673680388,7234302117465620486,28259013837258757,1851982739623499661319,7234308641671872518,7234308676115562502,7234309775325659142,1851983314612481425415,110386807898116,7234311940274913286,7234311957386625030,1851983872107658608647,28259031334780933,7234312026208141318]
  pure val w19: List[int] = [7234314173724033030,474108084053543190069256,7234315255989665798,7234315272984592390,110386890866692,1851984717554790825991,1851984722025952903175,7234316338169905158,7234316355249635334,1851985549932438224903,7234318571451777030,7234318597506793478,1852267871558636994567,110403768811524,1852267878143039373319,28263364924342277,110403801907204,7235425822644633606,110403836444676,7235426866322079750,1852269562616110383111,1852269568066743500807,1852270965563083259911,7235435696774840326,474181514120633030672392]
  pure val w20: List[int] = [7235440056133222406,110404054548484,474181870454832151986184,474181871026595379150856,1852272935836481552391,110404070539268,1852272944666935230471,474181874407516325150728,1852272947978053419015,474181875796242426298376,7235444454431391750,7235444471375396870,1852273791329273970695,28263472432742405,7237112477944774662,474291403633810723831816,431365750787,110429723164676,1852703323200397639687,7237123391355748358,7237124491051335686,7237124533750661126,28270017777893381,110429773889540,110429840146436]
  pure val w21: List[int] = [7237132191793479686,110429890478084,28273260327337989,7237954648016814086,28273260443533317,1852916403107841376263,110442424238084,28273277422862341,28273277725245445,28273294687076357,28273294787215365,28273294820704261,110442557997060,28273294954528773,110442658660356,110442759127044,431417262083,110455341907972,110455509090308,110455526064132,7238817773217316870,110455610933252,28276640415481861,110455628038148,28278758085885957]
  pure val w22: List[int] = [1853424445619530039303,28536069359271941,28536069475860485,28536116721811461,111469206044676,28536116854915077,7305246967200284678,111469223215108,111469223542788,111477628272644,1870286216202567614471,1870286218401691533319,111481905807364,111481940344836,1870359952690948407303,7306640074302816262,435526500355,28544865502756869,7307499862112731142,28548142680440837,28548151102275589,478958568940850066423816,1870931914241571291143,1870931920855820926983,478958572586757694685192]
  pure val w23: List[int] = [478958574267992594579464,28548172827918341,111516466872324,7308605940963147782,7308606000858726406,1871003139505121460231,7308609312327532550,1871006800913403609095,7308621381321162758,1871007076950784212999,28549302405627909,7308886320622141446,28550337207205893,435643744259,1871075753469492264967,1871075756823860805639,28550354555174917,7308890787305553926,1871076319773545791495,7308892913313054726,7308892947790233606,1871076867313156554759,28550376063565829,7308898445433241606,7308901795305619462]
  pure val w24: List[int] = [7308905042233786374,7308905068154847238,7308906193536483334,28550418845007877,7308907241508503558,28550419063570437,478996687962237223370760,1871221283771730165767,28553721607356421,28553721741836293,435710656515,28554735521169413,28554795399053317,1871367087784081620999,28554808469356549,28554821371166725,7310295890301091846,28555912041529349,1871440255906136522759,7310314582065872902,1871508387144118566919,7310582896978493446,479143324876928335544328,111559249231876,28559193563004933]
  pure val w25: List[int] = [7311153556716060678,28561332323483653,1871795486131579322375,7311703282415763462,479179787141013454520328,7311703299611492358,1871796048003361734663,7311703351134322694,1871796601057978941447,479179934073129047228424,1871797443283870023687,1871797451998190895111,28561366833233925,28561366951657477,111567839690756,7311716540810985478,7311717558802186246,7311717575798554630,7311717593229099014,1871799707092244103175,7311717619015680006,1871799713706661838855,7311721974028566534,28561414178275333,435828359171]
  pure val w26: List[int] = [1871868657539537633287,7377285908143472646,112568465424388,1888585477271418634247,112568482201604,28817553077043205,28817553176920069,112568616878084,28817566044848133,112568633196548,7377297964168445958,7377297990088851462,439721263107,28817574367657989,1888588572349389406215,112568717606916,1888589966564425334791,439721656323,28817600103055365,7377305656336973830,1888590249130423812103,28817604583096325,483479249593469778591752,1888873143636725137415,483551596265572931272712]
  pure val w27: List[int] = [1888873971555811196935,439787782147,112585678782468,112585679306756,7378423829714239494,28821972412858373,483552821794517298184200,28821998182858757,28822006807003141,439788961795,28826318954168325,1889161936911240921095,28826331955593221,7379543218551324678,112602976157700,112602976681988,7379548711597244422,28826370426273797,112603009646596,112603009712132,7379550854785925126,7379550863610085382,112603076820996,112603077345284,28826387908657157]
  pure val w28: List[int] = [7379556335096692742,112603093794820,439855874051,1889166715371662802951,439856136195,112615676641284,28829613327450117,28829613428310021,112615677493252,7380381050657177606,112615743619076,7380389782208380934,112615811448836,28829673256648709,28829673289613317,28829673491398661,7380396447947161606,28829699159621637,28829699327655941,439906533379,112628561936388,28832920587403269,439955685379,112628696088580,112628745895940]
  pure val w29: List[int] = [7381237527265869830,112628796227588,112628797276164,28832984709005317,7381244094337777670,7381244102692831238,112628847017988,1889598504651641389063,28832985011519493,1889598507864343969799,7381245253810651142,7381245258038902790,28832997778391045,439956799491,1889809878013926768647,28836210397216773,483791619829855404949512,28836227677945861,7382078623578324998,7382078662115655686,112641681326084,28836270544519173,28836270628405253,28836270695120901,7382085310692065286]
  pure val w30: List[int] = [28836296230436869,112654398783492,440056807427,28839564784762885,1890030843532715294727,112654617739268,7382935211923013638,7449345653894021126,113668078305284,7449354424536334342,1907034744694215606279,113668144824324,444016361475,7449361021319577606,1907036422531593863175,7449361034171514886,7449361068597641222,1907036434643520061447,444016558083,113668246208516,113668262264836,7449363250374901766,29099079474937861,113668362928132,1907323530379287855111]
  pure val w31: List[int] = [7450482557775446022,29103447641227269,7450482604868173830,1907323547933036838919,1907324954260015480839,29106750488838149,29107789787037701,113702388105220,7451600752359047174,7451608448823853062,1907612882205843718151,113702588907524,113702655557636,113715188072452,7452438610133188614,29111088388046853,29111088405741573,29111122512904197,1907826534950474416135,29111148249153541,29111148467781637,29111148518899717,29111148584697861,113715424198660,113715523682308]
  pure val w32: List[int] = [113728074022916,1908041290414856273927,113728257523716,113728307855364,29114447069249541,1908045236592034512903,7453302834896568326,7453302847848841222,7453306086405046278,113728442728452,113740957745156,29117685206155269,29117685307408389,29117685391687685,29117685424259077,29117685475508229,1908256638580446265351,29117702353453061,29117702420168709,113741092093956,29117719599513605,113741093142532,1908260558322185863175,29117745638408197,113741194002436]
  pure val w33: List[int] = [29117771291033605,29120983992631301,29121001190260741,29121018117554181,29121018252754949,7454980706753708038,444351774723,444418818051,29380472881807365,114767590195204,114767639740420,7521413169306271750,1925481778003689209863,114767673163780,29380533129117701,7521418619787542534,114767740272644,29380541768269829,1925483188612918149127,448311590915,114767807447044,114767824617476,7521427411635011590,114784634929156,7522525871029616646]
  pure val w34: List[int] = [29384866784346117,29384866851782661,492996470232713380954120,7522534645447262214,29384913927995397,7522537969701617670,114784820264964,448378306563,114784920862724,7523655034860339206,114801915723780,114801999872004,114802033950724,448445546499,114802100076548,1926059928684108251143,29395865927483397,7525342815274467334,114827769151492,114827769217028,1926490291781341085703,7525352715341725702,114827785994244,29395917517422597,114827819483140]
  pure val w35: List[int] = [114827836325892,114827870470148,7525359338180968454,29395934930862085,493182021075085187350536,114827887640580,29395943286374405,114827921063940,29395951876702213,448645955587,114853455134724,29402510224392197,7527042621712433158,29402510459535365,1926923194858159210503,7527043742800871430,114853573558276,7527048127860506630,29402531985162245,114853640667140,1926924599961156059143,7528156495660449798,452639129603,115875792158724,115879918501892]
  pure val w36: List[int] = [497700464015925011087368,115880036204548,7595160721523277830,452790583299,1944720858687774392327,1944720868575091556359,29675137668546565,1944792088324105109511,1944793197787155333127,7596848497574608902,7596851710026579974,7596851770423574534,1944794056510081925127,1944794059795681574919,115922835079172,1944862448357820661767,7597118951648460806,497884788450847120228360,29676250032766981,497884857972967361282056,7597120051194494982,497884861368340839989256,7597122190071562246,1944863292731195392007,7597122250267754502]
  pure val w37: List[int] = [7597124389060280326,1944863848023322787847,1944864145952184467463,7597126605113393158,7597126674084855814,7597129886752636934,29676292982046725,497885580237774681014280,29676301840547845,1944866398851795845127,7597136483721740294,7597136500718043142,7597136517913706502,1944866956304189816839,1944866960667776385031,7597137583049801734,497886009785081899778056,115923120750596,7597139799521361926,7597139816717025286,1944867799642560331783,115940216668164,7598536162023833606,1945226113942099918855,29681812282605573]
  pure val w38: List[int] = [115948638765060,29685093588598789,7665517353676046342,7665521794604990470,456901394435,116966899187716,1962660111109751767047,29947816670593029,29947863882072069,29947911008419845,457135226883,117026742730756,117026775695364,1963386323142172016647,457136734211,29965421623181317,29965443030908933,117052579774468,7671158930774753286,7671158939415871494,117052596224004,117052680699908,507090503276612761354248,118083237576708,118083237707780]
  pure val w39: List[int] = [1981112193282349203463,461263929347,118100383694852,461329661955,7739827859924516870,118100567785476,1981398739189406433287,118100652654596,461330710531,1981400423658232348679,118100668514308,7739845477879644166,118100719108100,118121891692548,30239221476556805,30239247196422149,118122060644356,465490280451,30506372721016837,30506372889182213,7809633611198627846,119165553278980,119165669408772,119165703684100,511812869781399489806344]
  pure val w40: List[int] = [7809646874225278982,30506441473589253,30506450030821381,30506450097668101,30506454358687749,1999271000532282048519,119165853696004,465491656707,119165871325188,1999271569052656730119,30506471505657861,119165922377732,7810756212570587142,119182681571332,30510766690795525,30510766757314565,1999554171028935868423,119182766374916,465557716995,30510792175255557,7810762814085398534,1999555858779284504583,30510818180071429,119182899544068,7810770519357652998]
  pure val w41: List[int] = [119182900527108,1999557544244710473735,7810776068371906566,7810777172010991622,30510856666873861,119199862226948,1999842103424586416135,1999842117645189578759,1999842384882365169671,119199945261060,119199946244100,30515190339731461,119200029147140,119200062504964,30515216126312453,119200079872004,119200096845828,7811899777744109574,119200164347908,7811903072034422790,119200213696516,7811909587600408582,119225631113220,119225631768580,2000274464390314590215]
  pure val w42: List[int] = [30521770111664133,119225665126404,30521787425161221,7813585260401721350,119225849413636,119225866780676,2000279531975201062919,119225966657540,7813592995552624646,119225983500292,30521864600944645,30528367350054917,2000708204053714501639,7815272997747556358,30528414426464261,30528414459363333,7815285174198403078,7816404425243820038,2017712671480747458567,469785378819,30787869239083013,7881694546721243142,120265147416580,120265147940868,120265148071940]
  pure val w43: List[int] = [30787882225631237,120265181036548,7881701139428409350,469786034179,7881702187500634118,2017715763273185689607,30787899271086085,2017715779800136548359,7881702273299775494,30787907944251397,7881706589925998598,30787916383387653,7881706611351093254,7881706620024324102,7881706628464246790,516535527577675891015688,120265315647492,120265316171780,7881707766630449158,30787924973322245,516535668043619133816840,120265332228100,7881708857619644422,7881708866142076934,2017718583572067844103]
  pure val w44: List[int] = [120265432694788,7882813806776614918,120282193723396,2018000351053180370951,120282194116612,516608230866570168172552,30792254267064325,30792254400561157,7882825948464742406,120282378665988,7882826992158113798,7882827048211251206,2018004011275799887879,120282412285956,30792314431012869,30792314496811013,30792314531348485,30792314682671109,120282495320068,2018005417516677267463,30792322986541061,7882834714676166662,7883943005166829574,516682091598074917158920,120299557945348]
  pure val w45: List[int] = [2018291669905905156103,30796691101908997,120299591041028,2018292229574604161031,30796695498522629,7883954073431769094,2018293346635316789255,7883958458510344198,7883959502238187526,120299675910148,2018293648992407715847,469920907267,30796738279505925,2018295056453308055559,7885629677478674438,30803249450450949,7885631876402577414,470020849667,7885641754961248262,2018724575168796164103,7885642880092012550,2018724586163744669703,30803292651520005,120325378277380,30803309512884229]
  pure val w46: List[int] = [120325428019204,2018725706518999007239,516793853784055603986440,7885649464276418566,7885649468738895878,30803318338093061,516793997053684693729288,30803322699317253,120325495128068,30803326826512389,120350946361348,7887322912450805766,120351097159684,516904030676600317607944,7887337193266806790,7887337202008260614,516904531711950221803528,30809911011246085,120351215583236,7887338369903755270,7888463101763649542,2019446570514313183239,120368411443204,31069353023963141,121364726218756]
  pure val w47: List[int] = [7953762023545634822,7953764252734914566,31069395941392389,7953766413102874630,7953766464692224006,121381705613316,121381738708996,121381771804676,521330883630360592449544,2036448776211198640135,2036449347970163408903,7954887910501056518,31073789725179909,121382007734276,474148503555,2036452447523724525575,2036452725712766107655,31073806620688389,121382074777604,121382091620356,121398918184964,31078140293152773,31084715954208773,31084746136420357,2037171037741590577159]
  pure val w48: List[int] = [7957701543692926982,7957704880698425350,31084784808099845,121424956424196,2037172999218912362503,121424973201412,2037173006945592213511,7957707062574907398,31084801736572933,474316472323,2037600571815864958983,7959388185823412230,31091381860892677,474416939011,478375772163,122468399906820,8026094469620432902,8026096685889683462,2054682715375880437767,2054682717562085900295,8026105447657111558,2054683566372161781767,31353001238200325,31353009492328453,2054755067557212979207]
  pure val w49: List[int] = [122477157154820,478459330563,31356312389550085,8027215988659650566,31356372518830085,478510055427,122506987503620,478559862787,31362922628579333,2055404991139610296327,122515711328260,122519904649220,478593482755,31365121534984197,8029474385727651846,122520056954884,122528528728068,31367303427850245,2055688718985682878471,8030041759581274118,8030046131791462406,8030588212363984902,31369489416454149,2055831138692518641671,31369497939148805]
  pure val w50: List[int] = [526292843858574666432520,31369510756679685,8030596969920724998,526293203578152893022216,8030604679168524294,2055907992390385270791,31371714142273541,2056052092211270123527,31372865193508869,8031453536840843270,2056052108677989335047,122554231291908,122554298531844,122554298793988,478745067523,31375038446960645,8032303420405579782,8032578354147360774,31378341426954245,123563582685188,8097863987466928134,123563648811012,123563683217412,8097872770524053510,123563733221380]
  pure val w51: List[int] = [31632324149968901,31632324167467013,31632324233986053,2073056013116314353671,31632332757794821,8097879367610597382,8097879384959221766,123563833753604,8097879440810573830,31632341599846405,123563851055108,31632349903454213,123563867111428,2073057689858812936199,8097881639833305094,2073057701953507557383,31632354466660357,123563900469252,2073059101631743000583,31636666345390085,8098986631940538374,123580728868868,2073340583188343554055,2073343668426342531079,482738044931]
  pure val w52: List[int] = [2073344222619177123847,8099000878145208326,8099002033541283846,8099003132936323078,2073345353986291793927,8099005319141916678,8099005345011990534,482738438147,31640025194364933,31640025295683589,8099849692699230214,530832258919442525454344,31641064577105925,8100114730668195846,2073629377699925786631,31641081571770373,482804695043,8100119090161385478,123598092894212,31641111838851077,123598126383108,2073632748733639819271,123598159544324,8100132348725297158,31641145996476421]
  pure val w53: List[int] = [31641172151697413,31644362926784517,8100956956509077510,2073844986428128428039,31644363211997189,123610794098692,8100961298954911750,8100961311638487046,31644448826523653,123611128463364,8100978946774204422,123623745323012,123623745781764,31647696006938629,31647708673605637,123623862239236,8101813454557741062,123623895728132,123623897104388,123623913029636,2074065383499423154183,2074065945337214664711,530960950979765130362888,530960953782390153871368,123623980662788]
  pure val w54: List[int] = [8101822216576892934,2074066508270039269383,2074067054783186403335,8101825527745216518,31647755985354757,531014992486443514134536,8102645785128402950,2074278441352244232199,8102650170055983110,2074278454512274702343,2074278457827923329031,8102650230437642246,2074278461126458212359,31650994356289541,31650994373066757,2074279577113647972359,31650994541821957,531015572322696801353736,8102654624104579078,2074279587009284866055,31650994742165509,2074281253915906080775,2074281254985588211719,2074281256153549963271,8102661165239500806]
  pure val w55: List[int] = [2074281259439166914567,2074281262681901236231,2074281266023670022151,31651020327485445,531016004935481009176584,2074281272624783949831,2074281273677017513991,31651020428017669,2074281275893236432903,8103491322287161350,2074494332659565002759,123649632501764,123649632763908,31654306044510213,2074496879137001439239,31654314366205957,31654323057065989,31654323175358469,531071557684535056728072,8103508901774295046,2074498286529232044039,31654331814313989,123649749680132,483006873603,8103517770746232838]
  pure val w56: List[int] = [2074786500403951566855,2092940241104539287559,2092940243350823174151,2092940247748601577479,535792991935510269001736,31935767868276741,124749094322180,124749094715396,31935793922899973,8241976967880245254,2109946386377524248583,125762604957700,125762605350916,32195231104499717,32195231238520837,125762706079748,125762706210820,32195252880474117,32195265649246213,125762773450756,32195274087071749,8241990170709917702,32195274153984005,32195282777407493,125762856615940]
  pure val w57: List[int] = [125762890170372,8241996784792109062,32195308480757765,491261460483,32195325828661253,32199616316899333,125779751731204,8243101841390174214,32199620627791877,2110234355044087758855,8243103963053555718,2110234618927046262791,8243103997479944198,8243104023283236870,2110234640891341242375,8243105148313075718,2110235471031060135943,8243107321818710022,8243107347604766726,8243108395510267910,8243108433997594630,2110235762431672582151,8243111676664348678,32199663511142405,2110237152167426588679]
  pure val w58: List[int] = [8243113892900110342,125779937132548,8243114958119632902,540220783025576377188360,8243114992562601990,8243115018466689030,8243116070449315846,32199672168120325,125779970359300,8243117221500289030,8243118256654778374,8243118273700560902,2110238285763646390279,8243118316935446534,2110238577168839147527,8243121563980070918,540221215371140721344520,8243121589717303302,540221218194755149955080,540221218469616145465352,8243121641139470342,8243122689211170822,2110239418277770297351,8243122740751368198,2110239695372114853895]
  pure val w59: List[int] = [8243124870769803270,8243124888017502214,8243125953386250246,8243972658776834054,491394301955,8244228767794200582,125796964696068,125796964892676,125796981473284,32204027297333253,32204035971153925,32204040199995397,32204040215724037,125797149376516,125797167005700,8244244221035610118,125797233524740,8244248640372867078,32204104506540037,32204104574042117,125822700879876,32210611684507653,32210615912366085,8245917699326345222,8245918755653419014]
  pure val w60: List[int] = [2110958005240302206983,125822935891972,8245931949859078150,125822936350724,125823002935300,8245937404652093446,32210697381740549,32210697498918917,32210697599647749,32210714461208581,8247606467347218438,125848521080836,491595956227,125848655298564,491596414979,8247619751614414854,32217281466204165,495555182595,8314036769580711942,2128393423977956179975,126862166917124,126862217707524,32476740440031237,8314045604379361286,32476740675567621]
  pure val w61: List[int] = [126862268563460,8314045638822395910,126862284357636,8314046716724969478,126862301069316,2128397922139937243143,2128397928737039515655,32476779128356869,2128398214532736286727,126862435352580,495556558851,32478892403261445,126870673555460,32478892503924741,2128536701402361233415,32478909616685061,8314604121892388870,8314604164876075014,2128538936683696291847,544905971737225248047112,544906403797990143557640,32478952684781573,32478965233876997,8314615116875038726,8314615134239850502]
  pure val w62: List[int] = [32478965568503813,495622094851,8315159430931415046,8315159435428102150,126879263883268,8315161617254055942,8315161629989011462,2128681379493313380359,544942433441633145520136,126879329943556,126879330402308,2128682497679442575367,8315171469725532166,126879447908356,2128684182169692798983,8315173686129852422,32481147378532357,544943225779420123168776,8315178084008656902,2128685603816785379335,2128685881993429123079,8315180330393075718,32481173182611461,32481181503979525,8316003795934314502]
  pure val w63: List[int] = [32484389861720069,2128896980542266212359,32484390062063621,126892214845444,32484407141728261,2128898113026205810695,8316012596270727174,32484424221458437,32484424354693125,126892282740740,8316012669168648198,32484449940340741,126892382683140,32484450142257157,126892383404036,32484450192588805,544998638358363932590088,32484450258714629,8316022509072809990,32484463126970373,2128902603418909343751,495673999363,2128969319598378123271,126896476717060,126896493101060]
  pure val w64: List[int] = [32485506569011205,32485515176706053,126896544022532,8316297369816924166,126896627712004,32485536718979077,8316297442680242182,2128972412537254576135,8316298516538654726,32485545156608005,126896661004292,32485562370621445,8316305130671702022,2128974396009304358919,495690711043,126896862199812,32487688630501381,8316852687428124678,495723282435,32487722856480773,126905167511556,32487722957668357,32487774396088325,126909327474692,126909328195588]
  pure val w65: List[int] = [32488805071060997,2129186338982820184071,32488822216654853,32488822233432069,8317138504701444102,126909462413316,8317145101653377030,126909563535364,126909563731972,32488874024894469,32489887519997957,32489887621185541,32489921879277573,32489947632304133,8317426611308199942,32490986880565253,32490987014389765,126917918326788,32491021290307589,126918153666564,126922213294084,8317976315331477510,8317976341033779206,126922246520836,126922262642692]
  pure val w66: List[int] = [126922297442308,32492133603737605,2129404471116129501191,32492133737037829,545127549402915521036296,32492133955207173,2129404753716537786375,126922430808068,126922448044036,32492159659212805,126922498768900,126922548576260,32492172475629573,126922548838404,8317996170930880518,32492172576555013,32493185903427589,32493186155085829,2129473450077542154247,32493186239561733,32493203050135557,2129474557285751324679,32493203116785669,32493203234750469,32493203267780613]
  pure val w67: List[int] = [8318263296673513478,32493220263165957,8318264391672922118,32493220397383685,126926642348036,8318264451869704198,32493233249714181,32493246134091781,2129477384173331283975,32493246234886149,32493246285611013,126926743404548,32493258885627909,8318274291504513030,8318274308902682630,495808217091,8318559048121516038,2129551120661678981127,545165088029549024509960,8319381487013396486,2129761662861843431431,32497584000335877,32497584017047557,8319381517179748358,32497584118431749]
  pure val w68: List[int] = [32497584134422533,32497584202579973,32497584235151365,126943688720388,32497601096646661,32497601163821061,126943755042820,126943755239428,8319385953662599174,32497618310070277,32497618461130757,32497618494357509,32497644079874053,2129765613372459974663,32497644264030213,32497644281266181,32497644332449797,32497644398247941,545220209839331448782856,8319400191479513094,8319400208759062534,8319400234579329030,545220215454546004344840,2129767292344080793607,32497669899681797]
  pure val w69: List[int] = [2129767302226766004231,32497687180148741,2129834008510446436359,8319664108697026566,8319664151512809478,2129834282289110122503,126948016128004,8319666268998074374,8319668476611526662,32498709198667781,2129835412587063541767,126948117577732,8319676203257692166,495891382275,32498739482001413,8319677328539254790,32498747920482309,8319679514795376646,2129837957956380196871,126948267589636,2129838507694846443527,32498756543119365,545238660803348165623816,545238661363051039817736,8319681739470995462]
  pure val w70: List[int] = [2129838800182120284167,2129838804563087196167,2129977844452835131399,32500882653315077,126956573032452,32500882737004549,32500899631988741,32500899699228677,32500916895875077,126956707053572,32500917029240837,8320234785195163654,32500942865956869,8320802056087273478,2130125341773037109255,32503154825232389,8320808730298744838,32758172651683845,8386093294171783174,499850346499,127961729335300,8386103164041166854,127961779601412,127961813155844,127961846317060]
  pure val w71: List[int] = [8386109769549873158,127961897041924,32758245800345605,8386112024575148038,127961980796932,32762566252429317,127978775052292,127978959536132,499917914115,8387231245791395846,8387231301542019078,127978993614852,127979060264964,127979077500932,127979161387012,32765864972058629,127991660412932,32765882134757381,127991727128580,8388065835313856518,32765882218643461,127991727849476,32765899331534853,127991794565124,2147347675139661889543]
  pure val w72: List[int] = [32765937835114501,8388080103261011974,32765938004066309,32765950854037509,2147349356280005394439,8388345093869010950,127996004728836,32766990102953989,127996139929604,8388356050330451974,127996155723780,127996173811716,499985154051,32767037346676741,8388362720682246150,32767046054117381,32773561637928965,2147848397115733508103,32773574221168645,2147848963402910269447,500085096451,549849551094210886762504,8390040545094008838,32773604352327685,8390044896147210246]
  pure val w73: List[int] = [549849986252368975953928,128021942304772,8390046021444763654,2147851783628811141127,128021959540740,32773621783461893,500085817347,32773625893552133,8390048258971729926,32773634383151109,2147852915000438882311,549850347944376925487112,128022027108356,32773642939793413,2147853763858027249671,8390055891229212678,32773655892197381,128022093889540,500086407171,32776859903787013,32776859920171013,2148064293933413498887,8390876152522276870,32776860004646917,549904461513034476683272]
  pure val w74: List[int] = [128034609823748,32776860172025861,8390876216880267270,128034610413572,32776877050691589,128034676211716,32776877267746821,32776894230036485,32776894246354949,32776894263525381,2148066546836967653383,128034743844868,128034744041476,8390891584324435974,2148068251058632458247,32776945803132933,128034944647172,32776945955045381,2148069931172412784647,32776946072158213,32776946088148997,500136738819,128047510781956,2148282733921490042887,8391733750167568390]
  pure val w75: List[int] = [128047711846404,8391734901101821958,8391739286264283142,128047779807236,8391739325035118598,8392287947145412614,8392287955703103494,32782391821271045,128056218746884,32782392090689541,500219969539,128064925532164,2148572922501846007815,129087061950468,554534667443662242250760,8461807825228988422,2166222826301345300487,33053945574522885,2166223380545182760967,33053949752901637,129116991848452,8461813318442680326,8461813378621636614,2166224772501318729735,2166225059469591379975]
  pure val w76: List[int] = [8461816685897515014,129117076062212,554553619716820011646984,2166225631215721775111,8461819975540867078,33054018539094021,2166228451488447594503,8461830927808200710,8462374069556543494,2166368624841488400391,8462378527598313478,129125766266884,33056200315764741,33056213200797701,33058339142107141,129134221393924,33059434458841093,504447172611,129138482741252,8463219615490375686,2166584228094011441159,33059520257982469,2166657411605153251335,8530208439332503558,8530208525348831238]
  pure val w77: List[int] = [33321144230936581,33321165504380933,8530218382031126534,33321165722550277,508440739843,8530220568403247110,33321182785830917,2183737591394183872519,130160920887300,33321204210466821,2184023006968876957703,8531344324887314438,8531346446768799750,2184024707990775201799,33325572342218757,130178082799620,8531350866139611142,2184025832739581067271,130178084306948,8531352008583282694,2184026380334791524359,8532458044383363078,2184309558382217658375,2184309830021836636167,2184309842116414603271]
  pure val w78: List[int] = [33329927171276805,130195045941252,2184312366534796574727,2184312938280843018247,8532473480446083078,2184314064266549002247,33329987569516549,130195279380484,33329991663222789,8532477917012951046,33329995823448069,33330004547076101,33336519878770693,33336545681670149,130220881608708,2184744702203537588231,8534159070492688390,130221066223620,8534173278143840262,131260230205444,33602619107573765,131260264742916,131260314484740,131260314550276,8602275984927096838]
  pure val w79: List[int] = [131260348628996,2202184332109177749511,131260415279108,2202184345337627541511,131260431728644,131260432252932,33602670730477573,33602674774638597,131260481863684,512736428035,8603389781598535686,8603389798694912006,131277310263300,8603389811411910662,2202467792833735688199,512802029571,2202468619670925017095,2202468908825303056391,33607025793695749,2202470870396979970055,131277612384260,512803209219,33610289868242949,131290195296260,33610306864545797]
  pure val w80: List[int] = [33610306931130373,131290262011908,33610307148775429,131290329251844,2202686216350511267847,131294539612164,33611402399186949,131294573166596,131294673764356,131294674288644,512869924867,8604529940713897990,131294707384324,131294707515396,131294707777540,8604529983495471110,8604530009265274886,131294774493188,8604535438271381510,131294791270404,131294791467012,2202761364624725180423,131320443699204,33618037805285381,8606218790406062086]
  pure val w81: List[int] = [131320493899780,131320494424068,131320544231428,131320544690180,33618059464015877,33618059566055429,33618059598495749,131333144707076,33621302013788165,2203405666408280162311,33621319462682629,33621319478476805,33621345147748357,133459437944836,133476333518852,8747517064219394054,521560981507,34181022336090117,34181022436818949,34451420658860037,134576130162692,134619012071428,525855555587]
  pure val g0: List[List[int]] = [w0,w1,w2,w3,w4,w5,w6,w7,w8,w9,w10,w11,w12,w13,w14,w15,w16,w17,w18,w19,w20,w21,w22,w23,w24]
  pure val g1: List[List[int]] = [w25,w26,w27,w28,w29,w30,w31,w32,w33,w34,w35,w36,w37,w38,w39,w40,w41,w42,w43,w44,w45,w46,w47,w48,w49]
  pure val g2: List[List[int]] = [w50,w51,w52,w53,w54,w55,w56,w57,w58,w59,w60,w61,w62,w63,w64,w65,w66,w67,w68,w69,w70,w71,w72,w73,w74]
  pure val g3: List[List[int]] = [w75,w76,w77,w78,w79,w80,w81]
  pure val G: List[List[List[int]]] = [g0,g1,g2,g3]
  // word number i, as wire form
  pure def word(i: int): int = G[i / 625][(i / 25) % 25][i % 25]
}
