use super::*;
use crate::vp_api::*;

type M<const N: usize> = [[f64; N]; N];
fn r() -> f64 {
    real(-100.0, 100.0)
}
fn any_matrix<const N: usize>() -> M<N> {
    std::array::from_fn(|_| std::array::from_fn(|_| r()))
}
/// Leibniz' formula, said once for all sizes
fn leibniz<const N: usize>(m: &M<N>) -> f64 {
    fn go<const N: usize>(m: &M<N>, row: usize, used: u32) -> f64 {
        if row == N {
            return 1.0;
        }
        let mut sum = 0.0;
        let mut sign = 1.0;
        for c in 0..N {
            if used & (1 << c) == 0 {
                sum += sign * m[row][c] * go(m, row + 1, used | (1 << c));
                sign = -sign;
            }
        }
        sum
    }
    go(m, 0, 0)
}
/// the same matrix with the columns changed such that the determinant is known
#[no_mangle]
pub extern "C" fn c10_det3() {
    let m = any_matrix::<3>();
    must(close(determinant3x3(m), leibniz(&m), 1e-9), "the 3x3 determinant is the determinant");
}
#[no_mangle]
pub extern "C" fn c10_det4() {
    let m = any_matrix::<4>();
    must(close(determinant4x4(m), leibniz(&m), 1e-9), "the 4x4 determinant is the determinant");
}
#[no_mangle]
pub extern "C" fn c10_det5() {
    let m = any_matrix::<5>();
    must(close(determinant5x5(m), leibniz(&m), 1e-9), "the 5x5 determinant is the determinant");
}
/// the sign that the floating point part decides
fn sign_of(x: f64) -> Sign {
    if x > 0.0 {
        Sign::Positive
    } else if x < 0.0 {
        Sign::Negative
    } else {
        Sign::Zero
    }
}
/// the determinant is so far from zero, compared to every entry, that rounding cannot matter
fn clear<const N: usize>(d: f64, m: &M<N>) -> bool {
    let mut ok = d > 1.0 || d < -1.0;
    for row in m.iter() {
        for x in row.iter() {
            ok &= *x >= -100.0 && *x <= 100.0 && *x != 0.0;
        }
    }
    ok
}
#[no_mangle]
pub extern "C" fn c10_sign3() {
    let m = any_matrix::<3>();
    let d = leibniz(&m);
    assume(clear(d, &m));
    must(determinant3x3_sign(m) == sign_of(d), "the sign is that of the determinant");
    cover(d > 2.0, "positive");
    cover(d < -2.0, "negative");
}
/// integer matrices, degenerate ones included: the sign is exact
#[no_mangle]
pub extern "C" fn c10_exact3() {
    const V: [f64; 3] = [-1.0, 0.0, 2.0];
    let mut m = [[0.0; 3]; 3];
    for i in 0..2 {
        for j in 0..3 {
            m[i][j] = V[pick(3)];
        }
    }
    // the last row is a combination of the others, or not
    let c = pick(3) as f64;
    let d = pick(2) as f64;
    for j in 0..3 {
        m[2][j] = m[0][j] + c * m[1][j];
    }
    m[2][1] += d;
    let want = sign_of(leibniz(&m));
    must(determinant3x3_sign(m) == want, "the sign is that of the determinant");
    cover(want == Sign::Zero, "zero");
    cover(want == Sign::Positive, "positive");
    cover(want == Sign::Negative, "negative");
}
/// numbers whose floating point determinant is wrong
#[no_mangle]
pub extern "C" fn c10_tiny() {
    let e = [1.0 / (1u64 << 52) as f64, 1.0 / (1u64 << 50) as f64, 1.0 / (1u64 << 30) as f64][pick(3)];
    let s = if pick(2) == 1 { 1.0 } else { -1.0 };
    let z = pick(2) as f64;
    let (i, j) = (pick(3), pick(3));
    // two equal rows but for one entry
    let a = 1.0 + s * e * z;
    let mut m = [[1.0, 2.0, 4.0], [1.0, 2.0, 4.0], [3.0, 5.0, 7.0]];
    let _ = i;
    m[1][j] = m[0][j] * a;
    // cofactors of the second row
    let cof = [-(2.0 * 7.0 - 4.0 * 5.0), 1.0 * 7.0 - 4.0 * 3.0, -(1.0 * 5.0 - 2.0 * 3.0)];
    let want = if z == 0.0 { Sign::Zero } else { sign_of(s * cof[j]) };
    must(determinant3x3_sign(m) == want, "the sign is exact where floating point numbers are not");
    let m4 = [[1.0, 9.0, 8.0, 7.0], [0.0, m[0][0], m[0][1], m[0][2]], [0.0, m[1][0], m[1][1], m[1][2]], [0.0, m[2][0], m[2][1], m[2][2]]];
    must(determinant4x4_sign(m4) == want, "4x4: the sign is exact where floating point numbers are not");
    let m5 = [[1.0, 3.0, 9.0, 8.0, 7.0], [0.0, m4[0][0], m4[0][1], m4[0][2], m4[0][3]], [0.0, m4[1][0], m4[1][1], m4[1][2], m4[1][3]], [0.0, m4[2][0], m4[2][1], m4[2][2], m4[2][3]], [0.0, m4[3][0], m4[3][1], m4[3][2], m4[3][3]]];
    must(determinant5x5_sign(m5) == want, "5x5: the sign is exact where floating point numbers are not");
    cover(want == Sign::Zero, "zero");
    cover(want == Sign::Positive, "positive");
    cover(want == Sign::Negative, "negative");
}
#[no_mangle]
pub extern "C" fn c10_signs() {
    let x = r();
    let y = r();
    let (a, b) = (Sign::of(x), Sign::of(y));
    must(a == sign_of(x), "sign of a number");
    must((a * b).is_positive() == ((x > 0.0 && y > 0.0) || (x < 0.0 && y < 0.0)), "signs multiply like numbers");
    must((a * b).is_negative() == ((x > 0.0 && y < 0.0) || (x < 0.0 && y > 0.0)), "signs multiply like numbers");
    must(a.is_positive() == (x > 0.0) && a.is_negative() == (x < 0.0), "positive and negative");
    let e = real(0.0, 1.0);
    match Sign::try_from_val(&x, e) {
        Ok(s) => must(s == sign_of(x) && (x >= e || x <= -e), "a sign that is reported is right"),
        Err(_) => must(x < e && -x < e, "signs are refused only close to zero"),
    }
    cover(x > 0.0 && y < 0.0, "different signs");
}
/// known finding: the error bound does not grow with the entries
#[no_mangle]
pub extern "C" fn c10_large() {
    let m = [[952966.0, 878150.0, 492026.0], [271953.0, 577540.0, 245714.0], [1224919.0, 1455690.0, 737740.0]];
    must(determinant3x3_sign(m) == Sign::Zero, "the singular matrix (952966 878150 492026) (271953 577540 245714) (their sum) has sign zero");
}

/// Singular matrices whose determinant in floating point numbers is not zero: in each, one row or column has the largest
/// entries, and the value is above the bound that the other rows or columns give.
const SINGULAR3: [[[f64; 3]; 3]; 6] = [
    [[22.50480031967163, 11.93701308965683, 20.122321486473083], [0.4949681907892227, 0.2519455701112747, 0.44469188153743744], [0.6599575877189636, 0.33592742681503296, 0.5929225087165833]],
    [[0.48421289026737213, 1.0062661617994308, 0.8980356305837631], [24.46060538291931, 5.6902666091918945, 22.31622475385666], [0.6456171870231628, 1.3416882157325745, 1.1973808407783508]],
    [[0.5038890838623047, 0.5386801511049271, 0.30288979411125183], [0.6718521118164062, 0.7182402014732361, 0.40385305881500244], [9.221820592880249, 20.642680823802948, 26.73074245452881]],
    [[16.15552258491516, 0.738243967294693, 0.9843252897262573], [12.222488820552826, 0.2744961529970169, 0.3659948706626892], [5.0133859515190125, 0.47768519818782806, 0.6369135975837708]],
    [[0.5395281314849854, 18.798145174980164, 0.7193708419799805], [0.5217382460832596, 12.050848186016083, 0.6956509947776794], [0.2498830407857895, 10.295778453350067, 0.333177387714386]],
    [[0.3682437390089035, 0.49099165201187134, 27.717228770256042], [0.1777193695306778, 0.23695915937423706, 16.255318701267242], [1.0879282057285309, 1.4505709409713745, 14.596460819244385]],
];
const SINGULAR4: [[[f64; 4]; 4]; 8] = [
    [[14.942274510860443, 21.344749927520752, 29.22067826986313, 4.882781147956848], [0.624530553817749, 0.5903339982032776, 1.063653588294983, 0.9300380349159241], [0.4105376601219177, 0.3473582863807678, 0.5487087965011597, 0.6007029414176941], [0.2139928936958313, 0.24297571182250977, 0.5149447917938232, 0.32933509349823]],
    [[0.6290929913520813, 0.3531264066696167, 0.40592581033706665, 0.2991744875907898], [29.484232008457184, 25.5451437830925, 8.197468221187592, 20.41911870241165], [1.0730413794517517, 0.7930335402488708, 1.0724444389343262, 0.7411414980888367], [0.4439483880996704, 0.43990713357925415, 0.6665186285972595, 0.4419670104980469]],
    [[0.19192320108413696, 0.4072341322898865, 0.34272128343582153, 0.25525325536727905], [0.5775594711303711, 0.6606307625770569, 0.7292401194572449, 0.7070611715316772], [13.737202763557434, 11.411313235759735, 20.03186136484146, 13.984379649162292], [0.38563627004623413, 0.2533966302871704, 0.38651883602142334, 0.4518079161643982]],
    [[0.5076928734779358, 0.6748901605606079, 0.19241827726364136, 0.15621674060821533], [0.6277993321418762, 0.623245894908905, 0.15013527870178223, 0.09105974435806274], [1.135492205619812, 1.298136055469513, 0.3425535559654236, 0.24727648496627808], [22.916926205158234, 14.480992913246155, 24.961177229881287, 25.772934079170227]],
    [[10.928987741470337, 0.5249066352844238, 0.8435722589492798, 0.31866562366485596], [17.412373900413513, 0.4617828130722046, 1.0633679032325745, 0.6015850901603699], [30.216473877429962, 0.19905483722686768, 0.7276727557182312, 0.5286179184913635], [13.33905428647995, 0.25601720809936523, 0.4654584527015686, 0.20944124460220337]],
    [[0.42110997438430786, 11.39470648765564, 0.9918915629386902, 1.413001537322998], [0.10257905721664429, 18.276123464107513, 0.40321874618530273, 0.505797803401947], [0.8494195938110352, 29.52220743894577, 0.3255242705345154, 1.1749438643455505], [0.6558340191841125, 6.3613967299461365, 0.1028738021850586, 0.7587078213691711]],
    [[0.5130729079246521, 0.9167571067810059, 25.12993860244751, 0.40368419885635376], [0.3410565257072449, 0.6098616123199463, 29.99161994457245, 0.2688050866127014], [0.662731945514679, 0.8792331218719482, 17.962488174438477, 0.2165011763572693], [0.5342310667037964, 0.9442755579948425, 20.507078886032104, 0.41004449129104614]],
    [[0.8882150650024414, 0.41004693508148193, 0.4781681299209595, 25.00107741355896], [1.0568575263023376, 0.6505483388900757, 0.40630918741226196, 3.325470209121704], [0.45980387926101685, 0.10025423765182495, 0.3595496416091919, 14.566361546516418], [1.0427132844924927, 0.615604043006897, 0.4271092414855957, 19.593901097774506]],
];
const SINGULAR5: [[[f64; 5]; 5]; 10] = [
    [[31.377220809459686, 3.7228240370750427, 20.958239376544952, 26.640027821063995, 25.540276527404785], [0.11971527338027954, 0.13664478063583374, 0.2759607434272766, 0.31388890743255615, 0.6236624121665955], [0.7927323579788208, 0.23763465881347656, 0.5239171981811523, 0.5180175304412842, 0.7697800397872925], [0.6730170845985413, 0.10098987817764282, 0.24795645475387573, 0.20412862300872803, 0.14611762762069702], [0.20726168155670166, 0.5270814299583435, 0.6985040903091431, 0.40923792123794556, 0.4973255395889282]],
    [[0.23856282234191895, 0.43288224935531616, 0.5199470520019531, 0.6708582639694214, 0.08428794145584106], [21.354726374149323, 29.921526968479156, 18.6462282538414, 13.006386041641235, 17.777207672595978], [0.8021774291992188, 0.7951340079307556, 0.5591562986373901, 0.9355937838554382, 0.8496538400650024], [0.481581449508667, 0.6982554793357849, 0.4155033826828003, 0.48541224002838135, 0.41452085971832275], [0.32059597969055176, 0.0968785285949707, 0.14365291595458984, 0.4501815438270569, 0.4351329803466797]],
    [[0.5370467901229858, 0.8874875903129578, 0.9677114486694336, 0.956382155418396, 0.9770462512969971], [0.3378683924674988, 0.11072981357574463, 0.6504596471786499, 0.6444769501686096, 0.17202502489089966], [17.862426280975342, 5.258267283439636, 27.712877333164215, 15.859845161437988, 4.9780749678611755], [0.2301083207130432, 0.2802526354789734, 0.5807210206985474, 0.4312155246734619, 0.37858307361602783], [0.3069384694099426, 0.6072349548339844, 0.38699042797088623, 0.5251666307449341, 0.5984631776809692]],
    [[0.09590494632720947, 0.3753085136413574, 0.2537369728088379, 0.12176257371902466, 0.5855628848075867], [0.4652319550514221, 0.37005138397216797, 0.2992098331451416, 0.5992910265922546, 0.11509823799133301], [0.39560455083847046, 0.5154803991317749, 0.5870935916900635, 0.41987961530685425, 0.3338925838470459], [17.185343503952026, 9.5244380235672, 21.22971600294113, 29.266871750354767, 14.180257201194763], [0.49150949716567993, 0.8907889127731323, 0.8408305644989014, 0.5416421890258789, 0.9194554686546326]],
    [[0.47612518072128296, 0.7121204137802124, 0.8057363033294678, 0.9226016998291016, 0.7562423944473267], [0.6384658813476562, 0.1964493989944458, 0.6750514507293701, 0.5423159003257751, 0.3717292547225952], [0.2531627416610718, 0.567091166973114, 0.5230404138565063, 0.2283138632774353, 0.33112233877182007], [0.22296243906021118, 0.1450292468070984, 0.2826958894729614, 0.6942878365516663, 0.4251200556755066], [29.2971174120903, 19.964376628398895, 28.121709644794464, 12.5700803399086, 4.428294599056244]],
    [[28.146042943000793, 0.6688895225524902, 0.7441344261169434, 0.12721222639083862, 0.07524490356445312], [23.23972523212433, 0.6130895018577576, 0.8589816093444824, 0.09735500812530518, 0.24589210748672485], [28.391547083854675, 0.20584994554519653, 0.42544543743133545, 0.35069429874420166, 0.21959549188613892], [13.279965996742249, 0.2204253077507019, 0.8532565832138062, 0.32726573944091797, 0.6328312754631042], [23.720510184764862, 0.19612771272659302, 0.36960721015930176, 0.3629952669143677, 0.17347949743270874]],
    [[0.2669064998626709, 31.6707826256752, 0.2376195788383484, 0.7244091629981995, 0.45750266313552856], [0.5919210910797119, 27.875206172466278, 0.6381438374519348, 0.9001196622848511, 0.30819857120513916], [0.30737918615341187, 9.456137418746948, 0.24181658029556274, 0.5000830292701721, 0.19270384311676025], [0.13845854997634888, 22.205645620822906, 0.3527359962463379, 0.811600923538208, 0.6731423735618591], [0.1511378288269043, 12.02302497625351, 0.5221216678619385, 0.5955418944358826, 0.44440406560897827]],
    [[0.4941287040710449, 0.5911980271339417, 6.617378890514374, 1.0853267312049866, 0.49879521131515503], [0.23246276378631592, 0.6800543069839478, 27.54401856660843, 0.9125170707702637, 0.4476141929626465], [0.5215540528297424, 0.40293437242507935, 17.010135650634766, 0.9244884252548218, 0.36132943630218506], [0.21061915159225464, 0.13326048851013184, 28.1607449054718, 0.3438796401023865, 0.3794490098953247], [0.20304173231124878, 0.49211305379867554, 31.814013361930847, 0.6951547861099243, 0.24314939975738525]],
    [[0.3365410566329956, 0.8409652709960938, 0.6286770701408386, 25.123884201049805, 0.5044242143630981], [0.37850308418273926, 0.5330602526664734, 0.07684493064880371, 31.19573336839676, 0.15455716848373413], [0.25205373764038086, 0.8168327212333679, 0.5770609974861145, 27.161115407943726, 0.5647789835929871], [0.49208348989486694, 0.7886378765106201, 0.6640679836273193, 24.030962824821472, 0.2965543866157532], [0.49729394912719727, 0.600935697555542, 0.5305008888244629, 9.903643548488617, 0.10364174842834473]],
    [[0.2266554832458496, 0.6615649461746216, 0.24116414785385132, 0.8882204294204712, 22.67547869682312], [0.4874348044395447, 0.0846906304359436, 0.39577335119247437, 0.5721254348754883, 6.171123623847961], [0.5175789594650269, 0.13344252109527588, 0.6910442113876343, 0.6510214805603027, 11.684390842914581], [0.36358606815338135, 0.18176788091659546, 0.6751327514648438, 0.5453539490699768, 15.32502943277359], [0.5639286041259766, 0.2881470322608948, 0.4873368740081787, 0.8520756363868713, 21.058547735214233]],
];
#[no_mangle]
pub extern "C" fn c10_singular() {
    match pick(3) {
        0 => must(determinant3x3_sign(SINGULAR3[pick(6)]) == Sign::Zero, "3x3: singular matrices have sign zero"),
        1 => must(determinant4x4_sign(SINGULAR4[pick(8)]) == Sign::Zero, "4x4: singular matrices have sign zero"),
        _ => must(determinant5x5_sign(SINGULAR5[pick(10)]) == Sign::Zero, "5x5: singular matrices have sign zero"),
    }
}
