// written by bin/gen_fact.py
// 1*2*...*n in f64 (exact up to 22!, within 2e-15 of n! above)
pub static FACT: [f64; 171] = [
    1.0,
    1.0,
    2.0,
    6.0,
    24.0,
    120.0,
    720.0,
    5040.0,
    40320.0,
    362880.0,
    3628800.0,
    39916800.0,
    479001600.0,
    6227020800.0,
    87178291200.0,
    1307674368000.0,
    20922789888000.0,
    355687428096000.0,
    6402373705728000.0,
    1.21645100408832e+17,
    2.43290200817664e+18,
    5.109094217170944e+19,
    1.1240007277776077e+21,
    2.585201673888498e+22,
    6.204484017332394e+23,
    1.5511210043330986e+25,
    4.0329146112660565e+26,
    1.0888869450418352e+28,
    3.0488834461171384e+29,
    8.841761993739701e+30,
    2.6525285981219103e+32,
    8.222838654177922e+33,
    2.631308369336935e+35,
    8.683317618811886e+36,
    2.9523279903960412e+38,
    1.0333147966386144e+40,
    3.719933267899012e+41,
    1.3763753091226343e+43,
    5.23022617466601e+44,
    2.0397882081197442e+46,
    8.159152832478977e+47,
    3.3452526613163803e+49,
    1.4050061177528798e+51,
    6.041526306337383e+52,
    2.6582715747884485e+54,
    1.1962222086548019e+56,
    5.5026221598120885e+57,
    2.5862324151116818e+59,
    1.2413915592536073e+61,
    6.082818640342675e+62,
    3.0414093201713376e+64,
    1.5511187532873822e+66,
    8.065817517094388e+67,
    4.2748832840600255e+69,
    2.308436973392414e+71,
    1.2696403353658276e+73,
    7.109985878048635e+74,
    4.052691950487722e+76,
    2.350561331282879e+78,
    1.3868311854568986e+80,
    8.320987112741392e+81,
    5.075802138772248e+83,
    3.146997326038794e+85,
    1.98260831540444e+87,
    1.2688693218588417e+89,
    8.247650592082472e+90,
    5.443449390774431e+92,
    3.647111091818868e+94,
    2.4800355424368305e+96,
    1.711224524281413e+98,
    1.197857166996989e+100,
    8.504785885678622e+101,
    6.123445837688608e+103,
    4.4701154615126834e+105,
    3.3078854415193856e+107,
    2.480914081139539e+109,
    1.8854947016660498e+111,
    1.4518309202828584e+113,
    1.1324281178206295e+115,
    8.946182130782973e+116,
    7.156945704626378e+118,
    5.797126020747366e+120,
    4.75364333701284e+122,
    3.945523969720657e+124,
    3.314240134565352e+126,
    2.8171041143805494e+128,
    2.4227095383672724e+130,
    2.107757298379527e+132,
    1.8548264225739836e+134,
    1.6507955160908452e+136,
    1.4857159644817607e+138,
    1.3520015276784023e+140,
    1.24384140546413e+142,
    1.1567725070816409e+144,
    1.0873661566567424e+146,
    1.0329978488239052e+148,
    9.916779348709491e+149,
    9.619275968248206e+151,
    9.426890448883242e+153,
    9.33262154439441e+155,
    9.33262154439441e+157,
    9.425947759838354e+159,
    9.614466715035121e+161,
    9.902900716486175e+163,
    1.0299016745145622e+166,
    1.0813967582402903e+168,
    1.1462805637347078e+170,
    1.2265202031961373e+172,
    1.3246418194518284e+174,
    1.4438595832024928e+176,
    1.5882455415227421e+178,
    1.7629525510902437e+180,
    1.9745068572210728e+182,
    2.2311927486598123e+184,
    2.543559733472186e+186,
    2.925093693493014e+188,
    3.3931086844518965e+190,
    3.969937160808719e+192,
    4.6845258497542883e+194,
    5.574585761207603e+196,
    6.689502913449124e+198,
    8.09429852527344e+200,
    9.875044200833598e+202,
    1.2146304367025325e+205,
    1.5061417415111404e+207,
    1.8826771768889254e+209,
    2.372173242880046e+211,
    3.012660018457658e+213,
    3.8562048236258025e+215,
    4.9745042224772855e+217,
    6.466855489220472e+219,
    8.471580690878817e+221,
    1.118248651196004e+224,
    1.4872707060906852e+226,
    1.992942746161518e+228,
    2.6904727073180495e+230,
    3.659042881952547e+232,
    5.01288874827499e+234,
    6.917786472619486e+236,
    9.615723196941086e+238,
    1.346201247571752e+241,
    1.89814375907617e+243,
    2.6953641378881614e+245,
    3.8543707171800706e+247,
    5.550293832739301e+249,
    8.047926057471987e+251,
    1.17499720439091e+254,
    1.7272458904546376e+256,
    2.5563239178728637e+258,
    3.808922637630567e+260,
    5.7133839564458505e+262,
    8.627209774233235e+264,
    1.3113358856834518e+267,
    2.006343905095681e+269,
    3.089769613847349e+271,
    4.789142901463391e+273,
    7.47106292628289e+275,
    1.1729568794264138e+278,
    1.8532718694937338e+280,
    2.946702272495037e+282,
    4.714723635992059e+284,
    7.590705053947215e+286,
    1.2296942187394488e+289,
    2.0044015765453015e+291,
    3.2872185855342945e+293,
    5.423910666131586e+295,
    9.003691705778433e+297,
    1.5036165148649983e+300,
    2.526075744973197e+302,
    4.2690680090047027e+304,
    7.257415615307994e+306,
];
// the least f64 within 2e-15 of n! (n! up to 22!)
pub static FACT_LO: [f64; 171] = [
    1.0,
    1.0,
    2.0,
    6.0,
    24.0,
    120.0,
    720.0,
    5040.0,
    40320.0,
    362880.0,
    3628800.0,
    39916800.0,
    479001600.0,
    6227020800.0,
    87178291200.0,
    1307674368000.0,
    20922789888000.0,
    355687428096000.0,
    6402373705728000.0,
    1.21645100408832e+17,
    2.43290200817664e+18,
    5.109094217170944e+19,
    1.1240007277776077e+21,
    2.5852016738884928e+22,
    6.204484017332382e+23,
    1.5511210043330956e+25,
    4.032914611266049e+26,
    1.0888869450418332e+28,
    3.0488834461171327e+29,
    8.841761993739685e+30,
    2.6525285981219056e+32,
    8.222838654177907e+33,
    2.6313083693369304e+35,
    8.68331761881187e+36,
    2.9523279903960355e+38,
    1.0333147966386125e+40,
    3.719933267899005e+41,
    1.3763753091226318e+43,
    5.230226174666001e+44,
    2.0397882081197404e+46,
    8.159152832478962e+47,
    3.345252661316374e+49,
    1.4050061177528771e+51,
    6.041526306337372e+52,
    2.6582715747884438e+54,
    1.1962222086547997e+56,
    5.502622159812078e+57,
    2.586232415111677e+59,
    1.2413915592536048e+61,
    6.082818640342664e+62,
    3.0414093201713323e+64,
    1.5511187532873792e+66,
    8.065817517094372e+67,
    4.274883284060017e+69,
    2.3084369733924094e+71,
    1.2696403353658251e+73,
    7.109985878048621e+74,
    4.052691950487714e+76,
    2.350561331282874e+78,
    1.3868311854568958e+80,
    8.320987112741375e+81,
    5.075802138772239e+83,
    3.146997326038788e+85,
    1.982608315404436e+87,
    1.2688693218588391e+89,
    8.247650592082455e+90,
    5.44344939077442e+92,
    3.647111091818862e+94,
    2.480035542436826e+96,
    1.71122452428141e+98,
    1.1978571669969869e+100,
    8.504785885678607e+101,
    6.1234458376885965e+103,
    4.4701154615126757e+105,
    3.3078854415193804e+107,
    2.480914081139535e+109,
    1.8854947016660466e+111,
    1.4518309202828558e+113,
    1.1324281178206277e+115,
    8.946182130782958e+116,
    7.156945704626366e+118,
    5.797126020747358e+120,
    4.7536433370128325e+122,
    3.945523969720651e+124,
    3.314240134565347e+126,
    2.8171041143805447e+128,
    2.4227095383672685e+130,
    2.1077572983795238e+132,
    1.8548264225739807e+134,
    1.650795516090843e+136,
    1.4857159644817585e+138,
    1.3520015276784004e+140,
    1.2438414054641284e+142,
    1.1567725070816393e+144,
    1.087366156656741e+146,
    1.032997848823904e+148,
    9.916779348709478e+149,
    9.619275968248193e+151,
    9.42689044888323e+153,
    9.332621544394398e+155,
    9.332621544394397e+157,
    9.425947759838341e+159,
    9.61446671503511e+161,
    9.902900716486161e+163,
    1.0299016745145608e+166,
    1.0813967582402889e+168,
    1.1462805637347061e+170,
    1.2265202031961356e+172,
    1.3246418194518264e+174,
    1.4438595832024909e+176,
    1.5882455415227398e+178,
    1.7629525510902414e+180,
    1.9745068572210702e+182,
    2.2311927486598092e+184,
    2.543559733472183e+186,
    2.9250936934930104e+188,
    3.3931086844518918e+190,
    3.969937160808713e+192,
    4.684525849754282e+194,
    5.574585761207595e+196,
    6.689502913449114e+198,
    8.094298525273428e+200,
    9.875044200833582e+202,
    1.2146304367025307e+205,
    1.506141741511138e+207,
    1.8826771768889225e+209,
    2.372173242880042e+211,
    3.012660018457654e+213,
    3.856204823625797e+215,
    4.974504222477278e+217,
    6.466855489220462e+219,
    8.471580690878805e+221,
    1.1182486511960023e+224,
    1.4872707060906828e+226,
    1.992942746161515e+228,
    2.6904727073180452e+230,
    3.6590428819525417e+232,
    5.012888748274982e+234,
    6.917786472619475e+236,
    9.615723196941071e+238,
    1.34620124757175e+241,
    1.8981437590761675e+243,
    2.6953641378881575e+245,
    3.8543707171800656e+247,
    5.550293832739294e+249,
    8.047926057471976e+251,
    1.1749972043909086e+254,
    1.7272458904546356e+256,
    2.5563239178728607e+258,
    3.808922637630562e+260,
    5.7133839564458435e+262,
    8.627209774233224e+264,
    1.31133588568345e+267,
    2.0063439050956785e+269,
    3.0897696138473448e+271,
    4.789142901463384e+273,
    7.471062926282881e+275,
    1.1729568794264121e+278,
    1.8532718694937314e+280,
    2.9467022724950327e+282,
    4.7147236359920524e+284,
    7.590705053947204e+286,
    1.229694218739447e+289,
    2.0044015765452987e+291,
    3.28721858553429e+293,
    5.423910666131579e+295,
    9.00369170577842e+297,
    1.5036165148649962e+300,
    2.5260757449731935e+302,
    4.269068009004697e+304,
    7.257415615307985e+306,
];
// the greatest
pub static FACT_HI: [f64; 171] = [
    1.0,
    1.0,
    2.0,
    6.0,
    24.0,
    120.0,
    720.0,
    5040.0,
    40320.0,
    362880.0,
    3628800.0,
    39916800.0,
    479001600.0,
    6227020800.0,
    87178291200.0,
    1307674368000.0,
    20922789888000.0,
    355687428096000.0,
    6402373705728000.0,
    1.21645100408832e+17,
    2.43290200817664e+18,
    5.109094217170944e+19,
    1.1240007277776077e+21,
    2.5852016738885024e+22,
    6.204484017332406e+23,
    1.5511210043331016e+25,
    4.032914611266064e+26,
    1.0888869450418374e+28,
    3.0488834461171447e+29,
    8.841761993739719e+30,
    2.6525285981219157e+32,
    8.222838654177939e+33,
    2.6313083693369403e+35,
    8.683317618811904e+36,
    2.9523279903960472e+38,
    1.0333147966386165e+40,
    3.7199332678990195e+41,
    1.376375309122637e+43,
    5.2302261746660215e+44,
    2.0397882081197482e+46,
    8.159152832478993e+47,
    3.345252661316387e+49,
    1.4050061177528826e+51,
    6.041526306337395e+52,
    2.658271574788454e+54,
    1.1962222086548043e+56,
    5.5026221598120996e+57,
    2.5862324151116867e+59,
    1.2413915592536097e+61,
    6.082818640342687e+62,
    3.0414093201713434e+64,
    1.5511187532873854e+66,
    8.065817517094403e+67,
    4.274883284060034e+69,
    2.308436973392418e+71,
    1.26964033536583e+73,
    7.109985878048648e+74,
    4.05269195048773e+76,
    2.350561331282883e+78,
    1.386831185456901e+80,
    8.320987112741407e+81,
    5.075802138772258e+83,
    3.1469973260387995e+85,
    1.9826083154044438e+87,
    1.268869321858844e+89,
    8.247650592082486e+90,
    5.443449390774441e+92,
    3.647111091818876e+94,
    2.4800355424368353e+96,
    1.7112245242814163e+98,
    1.1978571669969916e+100,
    8.504785885678639e+101,
    6.1234458376886204e+103,
    4.470115461512693e+105,
    3.307885441519393e+107,
    2.4809140811395446e+109,
    1.8854947016660539e+111,
    1.4518309202828615e+113,
    1.1324281178206319e+115,
    8.946182130782993e+116,
    7.156945704626394e+118,
    5.797126020747379e+120,
    4.753643337012851e+122,
    3.9455239697206663e+124,
    3.31424013456536e+126,
    2.817104114380556e+128,
    2.422709538367278e+130,
    2.1077572983795316e+132,
    1.854826422573988e+134,
    1.6507955160908494e+136,
    1.4857159644817643e+138,
    1.3520015276784057e+140,
    1.243841405464133e+142,
    1.1567725070816438e+144,
    1.087366156656745e+146,
    1.0329978488239079e+148,
    9.916779348709516e+149,
    9.619275968248231e+151,
    9.426890448883266e+153,
    9.332621544394432e+155,
    9.332621544394433e+157,
    9.425947759838377e+159,
    9.614466715035145e+161,
    9.9029007164862e+163,
    1.0299016745145648e+166,
    1.0813967582402929e+168,
    1.1462805637347105e+170,
    1.2265202031961402e+172,
    1.3246418194518314e+174,
    1.4438595832024962e+176,
    1.588245541522746e+178,
    1.762952551090248e+180,
    1.9745068572210778e+182,
    2.231192748659818e+184,
    2.5435597334721925e+186,
    2.925093693493021e+188,
    3.393108684451905e+190,
    3.9699371608087287e+192,
    4.6845258497543e+194,
    5.574585761207617e+196,
    6.68950291344914e+198,
    8.094298525273459e+200,
    9.87504420083362e+202,
    1.2146304367025354e+205,
    1.5061417415111438e+207,
    1.8826771768889298e+209,
    2.3721732428800515e+211,
    3.0126600184576654e+213,
    3.856204823625812e+215,
    4.974504222477297e+217,
    6.466855489220485e+219,
    8.471580690878837e+221,
    1.1182486511960064e+224,
    1.4872707060906886e+226,
    1.992942746161523e+228,
    2.6904727073180556e+230,
    3.6590428819525555e+232,
    5.012888748275001e+234,
    6.917786472619502e+236,
    9.615723196941108e+238,
    1.346201247571755e+241,
    1.8981437590761747e+243,
    2.6953641378881677e+245,
    3.85437071718008e+247,
    5.5502938327393156e+249,
    8.047926057472008e+251,
    1.174997204390913e+254,
    1.7272458904546423e+256,
    2.5563239178728705e+258,
    3.808922637630577e+260,
    5.713383956445866e+262,
    8.627209774233256e+264,
    1.311335885683455e+267,
    2.0063439050956864e+269,
    3.0897696138473568e+271,
    4.789142901463403e+273,
    7.471062926282909e+275,
    1.1729568794264167e+278,
    1.8532718694937382e+280,
    2.946702272495044e+282,
    4.71472363599207e+284,
    7.590705053947233e+286,
    1.2296942187394518e+289,
    2.0044015765453065e+291,
    3.287218585534302e+293,
    5.4239106661316e+295,
    9.003691705778455e+297,
    1.5036165148650018e+300,
    2.5260757449732034e+302,
    4.2690680090047134e+304,
    7.257415615308013e+306,
];
