"""What each check runs: for each property and tier, a list of (config, engine options, jobs).
A job is (name, entry, parameters); a string parameter is a text template (see xv.T and AL in harness/src/util.rs)."""
Q, TH = "quick", "thorough"

def rep(s, n): return s * n
E, F = "{1}", "{2}"          # expressions; expressions with functions and a constant

def t(entry, *params): return (entry, list(params))

# structured texts: (sign) operand (!) op (sign) operand (!) op ...
def chain(n, sign="{15}", opd="{20}", fact="{16}", op="{11}"): return op.join([sign + opd + fact] * n)

# long texts with a few symbolic places: many operators, deep nesting, rows of signs, many names, long names, blanks
L0 = ["x{3}y-x-y*x^y-x+y*x/y%x^y-x{11}2-y+x*y-x*y{16}", "((((((((((((x{3}y)))))))))){30}{30}{3}x", "((x+2)*((y-x)/((x{3}y)^((y+2)%(x{11}y)))))", "{15}{15}{15}-{15}+x{16}{3}y", "x^y{3}x^y^x{3}y^x^y", "2x{11}y(x{3}2)(y)x{11}3", "alpha_beta_gamma_delta_{4}{11}alpha_beta_gamma_delta_e",
    "   x   \t+\n  y {10} {3} {10}  x{10}", "a+b*c-d/g^i{3}q{11}r", "x-{20}*(y-{20}*(x-{20}*(y-2*(x-3*(y{3}x{30}))))", "-(-(-(-(x{3}y{16}{30}))){16}", "aVariableOfFortyCharacters_0123456789_ab{4}{3}x", "x!{3}y!{3}x!-y!*x!{16}", "((2)({15}3){11}x)({26})"]
L1 = ["f(f(f(f(f(f(x{3}y)))))){16}{11}f(x)", "h(x,y,2,k,x+y,f(x),g(x,y),x,y,2,k,x{3}y,{2}{30}", "g(g(g(x,y),g(y,x)),g(f(x){11}k,h(x,{33},y)))", "h(h(h(x),x,y){3}f(y),h(2,k)){11}g(x,-{26})", "k{11}x{11}f(k{16}){11}k"]
# long ones: many arguments, digits, letters, blanks, variables, brackets, signs, operators; a place or two left open
L2 = ["sum(" + "2,x,y," * 13 + "x{35}y{30}", "max(" + "2," * 270 + "x{35}y)", "n" * 70 + "{4}-" + "n" * 70 + "{4}", "n" * 270 + "{3}x", "0." + "1" * 60 + "{7}" + "1" * 10 + "*x", "1" + "0" * 70 + "{7}.5{11}x", "{7}" + "_" * 140 + "1{11}y", "x" + " " * 140 + "{3}" + "\n" * 140 + "y",
    "+".join("v%d" % k for k in range(40)) + "{3}v{7}", "(" * 70 + "x{3}y" + ")" * 69 + "{30}", "-" * 70 + "x{16}", "x-y*" * 40 + "x{3}2", "x^" * 40 + "{26}", "2x(y)" * 20 + "{26}", "sin(" * 40 + "x{11}y" + ")" * 40]
L3 = ["h(" + "x,k," * 20 + "{33}{30}", "f(" * 40 + "x{3}k" + ")" * 40, "g(x," * 30 + "{33}" + ")" * 30 + "{16}", "f(" + "(" * 60 + "x{3}2" + ")" * 61]
import os, re, xv
AL = xv.alphabets()
def keep(s, n):
    """s with only its last n symbolic places left"""
    h = re.findall(r"\{\d+\}", s)
    for x in h[:max(0, len(h) - n)]: s = s.replace(x, chr(AL[int(x[1:-1])][0]), 1)
    return s
def long0(entry, *a): return [t(entry, *a, s) for s in L0]
def long1(entry, *a): return [t(entry, *a, s) for s in L1]
def long2(entry, *a): return [t(entry, *a, s) for s in L2]
def long3(entry, *a): return [t(entry, *a, s) for s in L3]


def source():
    """the code of the current tree, without comments and tests"""
    out = []
    for d, ds, fs in os.walk(xv.REPO + "/src"):
        ds[:] = sorted(x for x in ds if x != "tests")
        for f in sorted(fs):
            if f.endswith(".rs"): out.append(re.sub(r"//[^\n]*", "", open(os.path.join(d, f), errors="replace").read()).split("#[cfg(test)]")[0])
    return "\n".join(out)
def sizes():
    """the numbers written in the code that could be the size of something: texts of just those sizes are tried"""
    s, n = source(), set()
    for m in re.finditer(r"(?<!\w)(?<!\d\.)(0x[0-9a-fA-F_]+|\d[\d_]*)(?:usize|u8|u16|u32|u64|u128|isize|i8|i16|i32|i64|_)*(?!\w|\.(?!\.))", s):
        try: n.add(int(m.group(1).replace("_", "").rstrip("x") or "0", 0))
        except ValueError: pass
    for m in re.finditer(r"\b1(?:_?[ui]\w+)?\s*<<\s*(\d+)", s): n.add(1 << min(int(m.group(1)), 20))
    for m in re.finditer(r"\b([ui])(8|16)::(MAX|BITS)", s): n.add((2 ** int(m.group(2)) - 1) // (2 if m.group(1) == "i" else 1))
    return sorted(x for x in n if 10 <= x <= 3000)[-14:]
def words():
    """the short texts quoted in the code that an expression could contain"""
    w = set()
    for m in re.finditer(r"\"((?:[^\"\\\n]|\\.)*)\"", source()):
        x = m.group(1)
        if re.fullmatch(r"[A-Za-z][A-Za-z0-9_']{0,11}|[A-Za-z0-9_'.+*/%^!(), -]{1,3}", x): w.add(x)
    return sorted(w - set(BUILTINS))[:40]
def sized(n, far=True):
    """texts with n of something"""
    v = ["n" * n + " " * n + "{3}" + "1" * (n - 1) + "{7}", "max(" + "2," * (n - 1) + "x{35}y)", "0." + "1" * (n - 1) + "{7}*x"]
    if n <= 300: v += ["(" * n + "x{3}y" + ")" * n, "-" * n + "x{16}", "x-" * n + "{26}", "+".join("v%d" % k for k in range(n)) + "{3}v{7}"]
    if n <= 120: v.append("sin(" * n + "x{3}2" + ")" * n)
    return v
SIZED = [s for k in sizes() for n in (k, k + 1) for s in sized(n)]
def sz(entry, *a, n=None): return [t(entry, *a, keep(s, n) if n else s) for s in SIZED]
def wd(entry, *a): return [t(entry, *a, s) for w in words() for s in (w + "{4}", w + "{3}x", "x{3}" + w, w + "(x)")]
# identities of real arithmetic and of the built-in functions that do not hold (or just might not) in floating point
COMP = """exp(ln(x)) ln(exp(x)) log(10^x) 10^log(x) e^ln(x) ln(e^x) logn(x^2,x) logn(x,10) logn(x,2) logn(x,e) logn(x,x) log(x)/log(y) ln(x)/ln(y) exp(x)*exp(y) exp(x+y) exp(x)/exp(y) exp(x)^y exp(-x) exp(1)*x
ln(x)+ln(y) ln(x)-ln(y) ln(x*y) ln(x/y) ln(x^y) log(x^2) sqrt(x)^2 sqrt(x^2) sqrt(x*x) sqrt(x)*sqrt(x) sqrt(x)*sqrt(y) sqrt(sqrt(x)) cbrt(x)^3 cbrt(x^3) cbrt(x)*cbrt(x)*cbrt(x)
x^0.5 x^-0.5 x^2 x^3 x^4 x^-1 x^-2 x^(1/3) 1/x 2^x 10^x e^x 1^x 0^x 0-x x^y*x^z x^y/x^z (x^y)^z x^y*z^y x*x^y x^2*x x^2^3 (x^2)^0.5 (x^0.5)^2 2^x*2^y 2^(x+1) (-x)^2 (-x)^3 (x*y)^2 (x/y)^2
recip(recip(x)) 1/(1/x) 1/recip(x) recip(1/x) recip(x)*x y*recip(x) recip(x/y) recip(-x) invert(x)^2 abs(-x) abs(abs(x)) abs(x)^2 abs(x*y) abs(x)*abs(y) abs(x-y) abs(x^2) abs(sqrt(x)) sqrt(abs(x))
sin(-x) cos(-x) tan(-x) sin(x)^2+cos(x)^2 cos(x)^2+sin(x)^2 1-sin(x)^2 sin(x)/cos(x) tan(x)*cos(x) 2*sin(x)*cos(x) cos(x)^2-sin(x)^2 sin(x+pi) sin(pi/2-x) sin(2*pi*x) sin(asin(x)) asin(sin(x)) cos(acos(x)) acos(cos(x)) tan(atan(x)) atan(tan(x))
sinh(asinh(x)) asinh(sinh(x)) cosh(acosh(x)) acosh(cosh(x)) tanh(atanh(x)) atanh(tanh(x)) cosh(x)^2-sinh(x)^2 sinh(x)/cosh(x) cosh(-x) sinh(-x) asin(x)+acos(x) asin(-x) acos(-x) atan(-x) atan(1/x) atan(x/y) atan2(x,1) atan2(-x,-y) atan2(x,x)
floor(ceil(x)) ceil(floor(x)) round(round(x)) trunc(floor(x)) floor(trunc(x)) floor(-x) ceil(-x) round(-x) floor(x+0.5) floor(x)+fract(x) trunc(x)+fract(x) x-floor(x) x-trunc(x) x-fract(x) fract(fract(x)) fract(floor(x)) fract(-x) floor(x+1) round(x/10)*10 abs(floor(x)) floor(x!) floor(x/1) round(x)!
x%1 x%2%2 x%y%y (x+y)%y (x-x%y)/y x%y/y (x*y)%y -x%y x%-y (-x)%(-y) x%abs(y) floor(x)%1 x%0.5 (x%2)! gamma(x+1) factorial(x) factorial(x-1) x!/x (x+1)!/x! x*(x-1)! x!/y! (x!)! x!*y! abs(x!) abs(x)!
hypot(x,0) hypot(0,x) hypot(x,x) hypot(-x,y) hypot(x,y)^2 sqrt(x^2+y^2) sqrt(x*x+y*y) hypot(hypot(x,y),z) max(x) min(x) sum(x) mean(x) max(x,x) mean(x,x) sum(x,x) sum(x,x,x) max(x,-x) max(x,y,x) min(x,y,x) max(max(x,y),z) max(x,max(y,z)) min(max(x,y),x) max(min(x,y),max(x,y)) -max(-x,-y) max(x,y)+min(x,y) max(x+z,y+z) max(2*x,2*y)
max(x,2,3) max(2,x,3) max(2,3,x) min(x,2,3) min(3,x,2) sum(x,2,3) sum(2,x,3) sum(0.1,x,0.2) sum(0.1,0.2,x) sum(2,x,-2) sum(x,0) sum(0,x,0,y) sum(x,-x) mean(x,2,3) mean(2,4,x) mean(x,0) mean(0,x,0) max(x,0) max(0,x) min(x,0,y) min(x,1) sum(sum(x,y),z) sum(x,sum(y,z)) sum(x,mean(y,z)) mean(mean(x,y),z) mean(x,mean(y,z)) mean(x,y)*2 sum(x,y)/2 sum(x*z,y*z) x+sum(y,z)
-(x-y) -(x+y) -(x*y) -(x/y) -(-x) -(x^2) -(x%y) (-x)*y x*(-y) (-x)/y x/(-y) (-x)+y x+(-y) (-x)-y x-(-y) (-x)-(-y) (-x)*(-y) (-x)/(-y) (-x)+(-y) (-x)^(-y) x*-1 -1*x x/-1 0-x-y x+x x+x+x x*x*x x*x*x*x 2*x-x 2*x+x x*2+x*3 x*y/y x/y*y x*y/x x/(x*y) (x/y)/(x/z) x-y+y x+y-x x-(x-y) x-(x+y) (x-y)-(x-z) x*y+x*z x*y-x*z (x+y)*z (x-y)*(x+y) (x+y)^2 x^2-y^2 x/y+z/y x/y-z/y (x+y)/z x/(y/z) x/y/z x*(y/z) (x/y)*(y/x) x+(y+z) x+(y-z) x-(y+z) x-(y-z) x*(y*z)
x*2/2 x/2*2 x/3*3 x*3/3 x*0.5 x/2 x/3 x/0.1 x/0.5 x/10 x*0.1*10 x+0.1+0.2 0.1+x+0.2 0.1+(x+0.2) 0.1-x-0.2 0.1-(x-0.2) x-0.1-0.2 x-0.1+0.2 0.1*x*0.3 0.1*(x*0.3) 0.1*x/0.3 0.1/x*0.3 0.1/(x*0.3) 0.1/(x/0.3) x/3/7 x*3/7 x/3*7 (x+2)-2 2-(2-x) 2-(x+2) (x+2)+-2 3*(x+2) 3*(x/7) (2*x)*(3*y) (x/3)/(y/7) (x+0.1)+(y+0.2) (x+0.1)-(y+0.1) x*1e308*10 x/1e-308/10 x*1e-200*1e-200 x+1e308+1e308 x-1e16+1e16 1e16+x-1e16
x+(y+-x) x*(y/x) (x*y)/(z*y) (x+y)-(y+x) (x*y)-(y*x) (x-y)-(y-x) (x-y)/(y-x) (x-y)+(y-x) (x/y)-(y/x) (x+y)/(y+x) (x^y)-(y^x) (x%y)-(y%x) max(x,y)-max(y,x) hypot(x,y)-hypot(y,x) atan2(x,y)-atan2(y,x) sum(x,y,z)-sum(z,y,x) (x+y+z)-(z+y+x) (x*y*z)/(z*y*x) sin(x)-sin(y) (x+2)-(2+x) x*2-2*x (x-2)-(2-x) x!-x! x!/x! -x--x x%x x^x/x^x (x+1)%(1+x) (x+y)%(y+x)""".split()
def cp(entry, *a, sub=None, step=1): return [t(entry, *a, re.sub(r"(?<![A-Za-z0-9_])([xyz])(?![A-Za-z0-9_])", lambda m: sub[m.group(1)], s) if sub else s) for s in COMP[::step]]

def C01(tier):
    p = [t("h_robust", 0, 1, ""), t("h_robust", 0, 1, "{0}"), t("h_robust", 0, 1, "{0}{0}"), t("h_robust", 0, 0, "{0}{0}{0}"),
         t("h_robust", 4, 1, F * 4), t("h_robust", 0, 1, E * 4), t("h_robust", 1, 0, "f({2}{2}{2}"), t("h_robust", 1, 0, "g({2}{2},{2}"), t("h_robust", 1, 0, "2{12}{13}{2}{2}"),
         t("h_robust", 0, 0, "{6}{6}{6}{6}"), t("h_robust", 1, 0, "{9}{9}{9}{9}"), t("h_robust", 1, 0, "f(g({2}{2}{2}"), t("h_robust", 0, 0, "sin({1}{1}{1}"),
         t("h_robust", 1, 0, F * 5), t("h_robust", 0, 0, "{0}{0}{0}{0}"), t("h_robust", 0, 0, "((x{1}{1}{1}{1})"), t("h_robust", 4, 1, "x{21}{21}{21}{21}")]
    o = [t("h_robust", 0, 1, ""), t("h_robust", 0, 1, E * 3), t("h_robust", 4, 1, F * 3), t("h_robust", 4, 1, "{23}{3}{23}{16}{3}{23}"), t("h_robust", 0, 0, "x{3}{21}{21}{21}"), t("h_robust", 0, 0, E * 5)]
    p += long0("h_robust", 4, 1) + long1("h_robust", 4, 1); o += long0("h_robust", 4, 1) + long1("h_robust", 4, 1)
    p += long2("h_robust", 4, 1) + long3("h_robust", 4, 1) + sz("h_robust", 4, 1) + wd("h_robust", 4, 1); o += long2("h_robust", 4, 1) + long3("h_robust", 4, 1)
    if tier == TH:
        p += [t("h_robust", 1, 0, F * 6), t("h_robust", 0, 1, "{0}{0}{0}"), t("h_robust", 0, 0, "{0}{0}{0}{0}{0}"), t("h_robust", 4, 1, F * 5), t("h_robust", 0, 0, E * 6), t("h_robust", 1, 0, "g({2}{2}{2},{2}{2}"), t("h_robust", 1, 0, "h({2}{2},{2}{2},{2}"), t("h_robust", 1, 0, F * 7)]
        o += [t("h_robust", 1, 0, F * 5), t("h_robust", 0, 1, E * 5), t("h_robust", 0, 0, E * 6), t("h_robust", 1, 0, F * 6)]
    r = [("p", p), ("po", o), ("npo", [x for x in o])]
    if tier == TH: r += [("j", p), ("jo", o), ("njo", o)]
    return r

def sem(fl, tier, more=()):
    v = [t("h_sem", fl, 0, ""), t("h_sem", fl, 0, E * 3), t("h_sem", fl, 0, E * 4), t("h_sem", fl, 1, F * 4),
         t("h_sem", fl, 0, "{15}x{16}{3}{15}y{16}"), t("h_sem", fl, 0, "{15}x{3}{15}y{3}{15}x"), t("h_sem", fl, 0, "x{11}y{16}{11}x{16}{11}y"), t("h_sem", fl, 0, "2{18}{1}{1}{1})")]
    v += list(more) + [t("h_sem", fl, 0, E * 5), t("h_sem", fl, 0, "x{11}({15}y{11}x){16}{11}y"), t("h_sem", fl, 1, "f(x{11}y){11}{1}{1}"), t("h_sem", fl, 0, "x{3}y{3}x{3}y"), t("h_sem", fl, 0, "x{11}x{11}2{11}y"), t("h_sem", fl, 1, F * 5)]
    v += long0("h_sem", fl, 0) + long1("h_sem", fl, 1) + long2("h_sem", fl, 0) + long3("h_sem", fl, 1) + sz("h_sem", fl, 0) + wd("h_sem", fl, 0)
    if tier == TH:
        v += [t("h_sem", fl, 0, E * 6), t("h_sem", fl, 1, F * 6), t("h_sem", fl, 0, chain(3)), t("h_sem", fl, 0, "x{11}y{11}x{11}y{11}x{11}y"), t("h_sem", fl, 0, E * 7), t("h_sem", fl, 1, F * 7)]
    return v

def C02(tier): return [("p", sem(2, tier) + cp("h_sem", 2, 0)), ("j", sem(2, tier))]
def C03(tier):
    more = [t("h_sem", 1, 0, "{9}{9}{9}"), t("h_sem", 1, 1, "{0}{0}"), t("h_sem", 1, 0, "x{10}{11}{10}y"), t("h_sem", 1, 1, "f{10}(x{1}{1}"), t("h_sem", 1, 1, "g(x,{1}{1}"), t("h_sem", 1, 0, "{29}{29}{29}{29}"), t("h_sem", 1, 1, "{22}({2},{2}{2}"), t("h_sem", 1, 0, "2{11}2{10}2"), t("h_sem", 1, 1, "max(x,2,y{35}{30}{30}"), t("h_sem", 1, 1, "h(x,y,2,k{35}{8}{30}{30}"), t("h_sem", 1, 1, "h(x,(y{30},2{30}"), t("h_sem", 1, 1, "{22}(x,f(y{35}2{30},x{30}"), t("h_sem", 1, 1, "k{11}k{10}{11}2{16}2")]
    v = sem(1, tier, more)
    o = [x for x in v if x[1][-1] != F * 5] if tier == Q else v
    return [("p", v), ("po", [x for x in o if x[1][-1] not in SIZED]), ("j", v), ("jo", [x for x in o if x[1][-1] not in SIZED])]
def C04(tier):
    v = [t("h_sem", 3, 0, "{6}{6}{6}"), t("h_sem", 3, 0, "{6}{6}{6}{6}"), t("h_sem", 3, 0, "1{25}{25}{25}{25}"), t("h_err", 0, "{6}{6}{6}{6}"), t("h_sem", 3, 0, "{7}{7}{7}{7}{7}{7}"), t("h_sem", 3, 0, "{7}.{7}{7}e{28}{7}"), t("h_sem", 3, 0, "{7}E{6}{6}{6}"), t("h_sem", 3, 0, "{7}e{7}{7}{6}"),
         t("h_sem", 3, 0, "{7}_{7}.{7}_{25}{25}"), t("h_sem", 3, 0, "{7}{7}{7}{7}{7}.{7}{7}"), t("h_sem", 3, 0, "123456789012345678{7}9.{7}5"), t("h_sem", 3, 0, "0.000001234567890123456{7}8_{7}"), t("h_sem", 3, 0, "{7}5e{28}1{7}{7}"), t("h_sem", 3, 0, "1677721{7}"), t("h_sem", 3, 0, "{7}23{7}56{7}8"), t("h_sem", 3, 0, "1{7}{7}45{7}7{7}"), t("h_sem", 3, 0, "90071992547409{7}{7}{7}{7}"), t("h_sem", 3, 0, "184467440737095516{7}{7}"), t("h_sem", 3, 0, "{7}.{7}e-3{7}{7}"), t("h_sem", 3, 0, "{7}e0{7}0{7}"), t("h_sem", 3, 0, "1.{7}00000000000000000000{7}e{7}"), t("h_sem", 3, 0, "1_000_{7}00_00{7}.{7}_0{25}"), t("h_sem", 3, 0, "0.12345{7}78"), t("h_sem", 3, 0, "x{25}{25}{25}"), t("h_sem", 3, 0, "{6}{6}{6}{6}{6}"), t("h_err", 0, "{6}{6}{6}{6}{6}")]
    # many digits: what the last ones decide
    h = "1.00000000000000011102230246251565404236316680908203125"
    v += [t("h_sem", 3, 0, x) for x in (h + "{7}", h[:-1] + "{7}", h[:-20] + "{7}" + h[-19:], h + "0" * 60 + "{7}", "9007199254740993.{7}", "9007199254740992.9999999999999999999999999999{7}", "90071992547409{7}3." + "0" * 40 + "{7}", "1797693134862315{7}" + "0" * 290 + "{7}", "0." + "0" * 320 + "{7}9", "4.94065645841246544e-32{7}", "2.470328229206232720882843964341106861825299013071623822127928412503377536351043e-32{7}", "1{7}e00000000000000000000000{7}", "0" * 40 + "{7}", "{7}." + "0" * 40 + "{7}", "1_" * 40 + "{7}", "9" * 64 + "{7}.{7}", "2.2250738585072{7}14e-308")]
    for k in sizes():
        for n in (k, k + 1): v += [t("h_sem", 3, 0, s) for s in ("1" * (n - 1) + "{7}", "1." + "2" * (n - 1) + "{7}", "0." + "0" * (n - 1) + "{7}5", "1_" * (n // 2) + "{7}", "1e" + "0" * (n - 1) + "{7}", "{7}e-%d" % n, "{7}e%d" % n)]
    if tier == TH: v += [t("h_sem", 3, 0, "{6}" * 6), t("h_err", 0, "{6}" * 6), t("h_sem", 3, 0, "{25}" * 6), t("h_sem", 3, 0, "{6}" * 7)]
    return [("p", v)] + ([("jo", v)] if tier == TH else [])
def C05(tier):
    v = [t("h_err", 0, ""), t("h_err", 0, "{0}"), t("h_err", 0, "{0}{0}"), t("h_err", 1, "{2}{2}{12}{13}{2}"), t("h_err", 1, "g({2},{12}{13}{2}"), t("h_err", 1, F * 4), t("h_err", 1, "f(g({2}{2}{2}"), t("h_err", 1, "{22}({2},{2}{2}"), t("h_err", 1, "{22}(x{2}{2},{2})"), t("h_err", 0, "{6}{6}{6}{6}"), t("h_err", 0, "x{10}{10}{1}{1}"), t("h_err", 1, "f(g(x {12}{13}))"), t("h_err", 0, "{9}{9}{9}"), t("h_err", 0, "{0}{0}{0}"),
         t("h_err", 1, "1+{22}( x ,{2}){2}"), t("h_err", 0, "log{9}{9}{9}"), t("h_err", 1, F * 5),
         t("h_err", 0, "sin(" + "2," * 300 + "x{30}"), t("h_err", 1, "{22}(" + "x," * 260 + "y)+{2}"), t("h_err", 1, "{22}(" + "x," * 60 + "{2}{2}"), t("h_err", 0, "x+" * 140 + "{9}{9}"), t("h_err", 0, "2" * 300 + "{6}{6}{6}"), t("h_err", 0, "n" * 300 + "{0}{0}"), t("h_err", 1, "f(" * 40 + "{2}{2}"), t("h_err", 0, "(" * 40 + "x" + ")" * 40 + "{9}{9}"), t("h_err", 0, "x" + " " * 300 + "{9}{9}")]
    v += long0("h_err", 0) + long1("h_err", 1) + long2("h_err", 0) + long3("h_err", 1)
    for k in sizes():
        for n in (k, k + 1): v += [t("h_err", 0, "sin(" + "2," * (n - 1) + "x{30}"), t("h_err", 0, "n" * n + "{9}{9}"), t("h_err", 0, "2" * n + "{6}{6}"), t("h_err", 1, "{22}(" + "x," * (n - 1) + "{2}")]
    if tier == TH: v += [t("h_err", 0, "{0}{0}{0}{0}"), t("h_err", 1, F * 6), t("h_err", 1, "h({2}{2},{2}{2},{2}{2}"), t("h_err", 1, "{22}({22}({2},{2}{2},{2}")]
    return [("p", v)] + ([("jo", v)] if tier == TH else [])
def C06(tier):
    fl = 11
    v = [t("h_sem", fl, 2, "{5}"), t("h_sem", fl, 2, "{5}{4}"), t("h_sem", fl, 2, "pi{4}"), t("h_sem", fl, 2, "{5}i"), t("h_sem", fl, 2, "{5}{4}(x)"), t("h_sem", fl, 2, "{24}{24}{24}"), t("h_sem", fl, 2, "{24}{24}{24}(x)"), t("h_sem", fl, 0, "{5}{4}{4}(x)"), t("h_sem", fl, 2, "sin{4}"), t("h_sem", fl, 2, "{5}in"), t("h_sem", fl, 2, "e{9}{9}"), t("h_sem", fl, 2, "cos{4}(2,a)"), t("h_sem", fl, 2, "x{9}{5}"),
         t("h_sem", fl, 2, "2{5}{4}{9}"), t("h_sem", fl, 2, "a{4}+x{4}"), t("h_sem", fl, 0, "{24}{24}{24}{24}(y)")]
    v += [t("h_sem", fl, 2, "n" * k + "{4}-" + "n" * k + "{4}") for k in (7, 14, 15, 16, 22, 23, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 300)] + [t("h_sem", fl, 2, "sin" + "e" * 61 + "{4}(x)"), t("h_sem", fl, 2, "pi{4}" + "i" * 30 + "*x")] + wd("h_sem", fl, 2)
    v += [t("h_sem", fl, 2, "n" * n + "{4}-" + "n" * n + "{4}") for k in sizes() for n in (k - 1, k)]
    v += cp("h_sem", fl, 5)
    if tier == TH: v += [t("h_sem", fl, 2, "{5}{4}{4}"), t("h_sem", fl, 0, "{5}{4}{4}{4}(x)"), t("h_sem", fl, 2, "{24}" * 5), t("h_sem", fl, 0, "{24}{24}{24}{24}{24}(y)")]
    return [("p", v)] + ([("jo", v)] if tier == TH else [])
def C07(tier):
    v = []
    for a in list(range(10)) + [255]:
        for d in (0, 1):
            for n in range(0, 11):
                if tier == Q and a != 255 and n not in (0, 1, a - 1, a, a + 1): continue
                if tier == Q and a == 255 and n not in (0, 1, 2, 5, 10): continue
                for c in ((0, 1) if tier == TH or n == a else (d,)): v.append(t("h_arity", a, d, n, c))
    for a in (0, 1, 2, 9, 255): v += [t("h_arity_many", a, a % 2, lo, up) for lo, up in [(11, 8), (30, 5), (62, 5), (254, 6)] + [(k, 2) for k in sizes()]]
    v += [t("h_arity_many", 44, 0, 299, 3), t("h_arity_many", 255, 1, 510, 4)][1:]
    v += [t("h_calls", "{32}(x{35}{2}{35}y)"), t("h_calls", "G(F(x,{8}){35}{35}m{30}"), t("h_calls", "H({33}{35}{33}{35}{33})"), t("h_calls", "F({33}{11}k,G(y,{33},x)){11}{33}"), t("h_calls", "{32}({33}{3}{33},{32}({33},{33}))"), t("h_calls", "{32}(k,{33},{33}{35}m)")]
    if tier == TH: v += [t("h_calls", "{32}({33}{35}{33}{35}{33}{35}{33})"), t("h_calls", "{32}({32}({33},{33}),{32}({33}{35}{33}){35}{33})"), t("h_calls", "F({31}{31}{31}{31}{31}")]
    return [("p", v), ("po", v)]
def C08(tier):
    v = [t("h_eval", 0, E * 3), t("h_eval", 1, "f(x{11}{8}){11}{14}"), t("h_eval", 1, "{22}({14}{11}k,{14})"), t("h_eval", 0, "{14}{11}{14}{11}{14}"), t("h_eval", 0, "{15}{14}{16}{3}{15}{14}{16}"), t("h_eval", 1, F * 4), t("h_eval", 1, "k{11}2"), t("h_eval", 0, E * 4)]
    v += [t("h_eval", 0, keep(x, 3)) for x in L0] + long1("h_eval", 1) + [x for x in long2("h_eval", 0) if "v39" not in str(x)] + long3("h_eval", 1) + [x for x in sz("h_eval", 0, n=1) if "v12" not in str(x)]
    v += cp("h_eval", 0)
    if tier == TH: v += [t("h_eval", 0, E * 5), t("h_eval", 1, F * 5), t("h_eval", 0, "{14}{11}{14}{11}{14}{11}{14}")]
    return [("p", v), ("po", v)]
OPT = [("{34}{3}{34}",), ("x{3}x",), ("{20}{3}{20}{3}{20}",), ("{20}{3}({20}{3}{20})",), ("({20}{3}{20}){3}({20}{3}{20})",), ("-({20}{3}{20}){3}{20}",), ("{15}{26}{16}{3}{15}{26}{16}",), ("({15}{26}{3}{15}{26}){3}{15}{26}",)]
def C09(tier):
    v = [t("h_sem", 4, 0, x[0]) for x in OPT] + [t("h_sem", 4, 0, E * 4), t("h_sem", 4, 1, F * 4), t("h_sem", 4, 1, "f({20}{3}{20}){3}f({20}{3}{20})"), t("h_sem", 4, 0, "({26}{3}{20})!{3}({26}{3}{20})!"),
         t("h_sem", 4, 0, "{26}{3}0.1{3}0.3"), t("h_sem", 4, 0, "0.1{3}({26}{3}0.7)"), t("h_sem", 4, 0, "(x{3}0.1){3}(y{3}0.3)"), t("h_sem", 4, 3, "x{3}k{3}m"), t("h_sem", 4, 3, "k{3}(x{3}m)"), t("h_sem", 4, 3, "(x{3}k){3}(y{3}m)"), t("h_sem", 4, 3, "{15}k{3}{15}x"), t("h_sem", 4, 0, "(x{3}3){3}5")]
    v += long0("h_sem", 4, 0) + long1("h_sem", 4, 1) + long2("h_sem", 4, 0) + long3("h_sem", 4, 1) + sz("h_sem", 4, 0, n=1) + cp("h_sem", 4, 0) + cp("h_sem", 4, 5)
    if tier == TH: v += [t("h_sem", 4, 0, E * 5), t("h_sem", 4, 0, "{15}({20}{3}{20}){3}{15}({20}{3}{20})"), t("h_sem", 4, 0, "({20}{3}{20}){3}({20}{3}({20}{3}{20}))"), t("h_sem", 4, 1, F * 5), t("h_sem", 4, 0, E * 6)]
    return [("po", v), ("npo", v)] + ([("jo", v)] if tier == TH else [])
def C10(tier):
    v = [t("h_sem", 2, 3, "{23}{3}{23}"), t("h_sem", 2, 3, "{15}{23}{16}"), t("h_sem", 2, 3, "{15}{23}{16}{3}{15}{23}{16}"), t("h_sem", 2, 3, "{23}{3}{23}{3}{23}"), t("h_sem", 2, 3, "{23}{3}({23}{3}{23})"), t("h_sem", 2, 3, "f({23}{3}{23}){3}g({23},-{23})"), t("h_sem", 2, 3, "sin({23}{11}{23})"), t("h_sem", 2, 3, "max({23},{23}{3}{23})"), t("h_sem", 2, 3, "atan2({23},{23}{3}{23})"), t("h_sem", 2, 3, "({23}{3}{23})!")]
    v += cp("h_sem", 2, 3, sub=dict(x="k", y="m", z="n")) + cp("h_sem", 2, 3, sub=dict(x="2", y="0.3", z="7"))
    if tier == TH: v += [t("h_sem", 2, 3, "({23}{3}{23}){3}({23}{3}{23})"), t("h_sem", 2, 3, "{15}{23}{16}{3}{15}{23}{16}{3}{15}{23}{16}"), t("h_sem", 2, 3, "{23}{3}{23}{3}{23}{3}{23}")]
    return [("po", v), ("npo", v)] + ([("jo", v)] if tier == TH else [])
def C11(tier):
    x = ["{26}{3}{26}", "{15}{26}{16}{3}{20}", "{26}{3}{20}{3}{26}", "({26}{3}{20}){3}({26}{3}{26})", E * 3]
    v = [t("h_subst", 0, n, s) for s in x for n in (1, 2) if n == 1 or s != x[3]] + [t("h_subst", 0, 2, "({26}{3}2){3}({26}{3}{26})"), t("h_subst", 1, 1, "f({26}{3}k){3}g(x,{26})"), t("h_subst", 0, 1, "x{36}{3}x{36}{3}X"), t("h_subst", 0, 2, "{26}1{3}{26}2{3}x"), t("h_subst", 1, 1, "h({37},b,{37},d,{37},2)"), t("h_subst", 0, 2, "aVeryLongVariableNameIndeed{3}aVeryLongVariableNameIndeed{36}{3}a"), t("h_subst", 0, 2, "a+b*c-d/{37}^f+{37}"), t("h_subst", 1, 2, "h({26},{26}{3}{20},2)")]
    v += long0("h_subst", 0, 1) + [t("h_subst", 1, 1, keep(s, 2)) for s in L1[:3] + L1[4:]] + [t("h_subst", 0, 1, keep(s, 1)) for s in L2 if "v39" not in s] + [t("h_subst", 1, 1, keep(s, 1)) for s in L3[:1] + L3[2:]] + [t("h_subst", 0, 1, "v0+v1+v2+v3+v4+v5+v6+v7+v8{3}v{7}"), t("h_subst", 1, 1, "f(" * 17 + "x{3}k" + ")" * 17)] + [x for x in sz("h_subst", 0, 1, n=1) if "v12" not in str(x)]
    if tier == TH: v += [t("h_subst", 0, n, s) for s in (E * 4, "{26}{3}{26}{3}{26}{3}{26}", "-({14}{3}{14}){3}{14}") for n in (1, 2)] + [t("h_subst", 0, 2, x[3]), t("h_subst", 1, 1, F * 4), t("h_subst", 1, 2, F * 4), t("h_subst", 0, 2, E * 5)]
    return [("p", v), ("po", cp("h_subst", 0, 1, step=1 if tier == TH else 3) + v), ("npo", v)]
def C12(tier):
    v = [t("h_vars", 0, 0, 0, E * 4), t("h_vars", 1, 0, 0, F * 4), t("h_vars", 0, 1, 0, E * 3), t("h_vars", 0, 1, 0, "{14}{3}{14}{3}{14}"), t("h_vars", 0, 1, 1, "{14}{3}{20}{3}{14}"), t("h_vars", 0, 2, 2, "{14}{3}{14}{3}{20}"), t("h_vars", 0, 2, 3, "({14}{3}{20}){3}{14}"), t("h_vars", 1, 1, 0, "h({14}{11}k,{14}{3}{20})"), t("h_vars", 0, 0, 0, "{5}{4}{11}{5}{4}"),
         t("h_vars", 1, 1, 0, "h({37},b,c,{37},i,d,z,x,y,2)"), t("h_vars", 0, 1, 2, "a{3}b{3}c{3}d{3}{37}"), t("h_vars", 0, 0, 0, "max(x1,x2,x3,x4,x5,x6,x7,x8,x9,x{36})+x{7}"), t("h_vars", 0, 1, 1, "x{36}{3}x{36}{3}X"), t("h_vars", 1, 2, 0, "f(g(a,f(b{3}{37}))){3}h(c,{37}!)"), t("h_vars", 1, 1, 0, "sin(cos({37})){3}h(h(h({37},b),c),-d)")]
    v += long0("h_vars", 0, 1, 0) + long1("h_vars", 1, 1, 0) + [t("h_vars", 0, 0 if "v39" in s else 1, 0, s) for s in L2] + [t("h_vars", 0, 1, 0, "v0+v1+v2+v3+v4+v5+v6+v7+v8{3}v{7}")] + long3("h_vars", 1, 1, 0) + [x for x in sz("h_vars", 0, 0, 0, n=1) if "v120" not in str(x)]
    if tier == TH: v += [t("h_vars", 0, 0, 0, E * 5), t("h_vars", 0, 2, 2, E * 4), t("h_vars", 1, 1, 1, F * 4), t("h_vars", 0, 2, 0, "{14}{3}{14}{3}{14}{3}{14}")]
    return [("p", v), ("po", v)] + ([("npo", v)] if tier == TH else [])
def C13(tier):
    v = []
    al = "a-b*c^d/e1+f1*g1-h1/i"
    use = ["a", "-b", "/c", "^d", "%e1", "-f1", "/g1", "-h1", "%i"]
    for k in range(1, 10): v.append(t("h_bind", k, 0, 0, "".join(use[:k]))); v.append(t("h_bind", k, 0, 0, al)); v.append(t("h_bind", k, 0, 0, "{17}-2{17}+{17}"))
    for n in (0, 1, 2, 3, 5, 12): v.append(t("h_bind", 10, n, 0, "{17}-2{17}+{17}"))
    for n, m in ((0, 0), (1, 1), (2, 2), (2, 1), (2, 3), (3, 0), (4, 4), (12, 12), (12, 11)): v.append(t("h_bind", 11, n, m, "{17}-2{17}+{17}"))
    v += [t("h_bind", 9, 0, 0, "a-b*c^d/e1+f1*g1-h1/{17}"), t("h_bind", 10, 12, 0, "o-2l+j{3}a"), t("h_bind", 11, 12, 12, "o-2l+j{3}a"), t("h_bind", 11, 12, 10, "o{11}j"), t("h_bind", 10, 12, 0, "max(o,l,j,i,h1,g1,f1,e1,d,c,b,a){3}l"), t("h_bind", 3, 0, 0, E * 3), t("h_bind_many", 0), t("h_bind_many", 14), t("h_bind_many", 62), t("h_bind_many", 253)] + [t("h_bind_many", k - 1) for k in sizes() if k < 600]
    if tier == TH: v += [t("h_bind_many", 60), t("h_bind_many", 509)] + [t("h_bind", k, 0, 0, "{17}-{17}*{17}+2{17}") for k in range(1, 10)] + [t("h_bind", 11, n, m, "{17}-{17}*{17}") for n in range(0, 6) for m in range(0, 7)]
    return [("p", v)] + ([("po", v)] if tier == TH else [])
def C14(tier):
    v = [t("h_fact", f, r) for f in (0, 1, 2) for r in (1, 2, 3, 4, 5, 0)] + [t("h_fact_int", f, lo) for f in (0, 1, 2) for lo in (0, 57, 114, 171)]
    return [("p", v), ("po", v)] + ([("npo", v)] if tier == TH else [])
def C15(tier):
    v = [t("h_ctx", 1), t("h_ctx", 2)] + [t("h_ctx_many", k) for k in [1, 6, 14, 30, 62, 126, 254] + [k for k in sizes() if k < 600]] + [ t("h_expect", 0, "{26}{11}{26}"), t("h_expect", 1, F * 3), t("h_expect", 0, "x{11}y{11}{20}"), t("h_expect", 1, "f({26}{3}k)"), t("h_expect", 0, "x{4}{11}y{4}"), t("h_expect", 0, "{5}{4}"), t("h_expect", 0, "{24}{24}+x"), t("h_expect", 0, "x+" + "n" * 30 + "{4}")]
    if tier == TH: v += [t("h_ctx", 3), t("h_expect", 1, F * 4), t("h_expect", 0, E * 4)]
    return [("p", v), ("po", [x for x in v if x[0] in ("h_ctx", "h_ctx_many")] + ([x for x in v if x[0] == "h_expect"] if tier == TH else []))]
def C16(tier):
    v = [t("h_round", 0, 0, E * 3), t("h_round", 0, 0, "{15}{26}{16}{3}{15}{20}{16}"), t("h_round", 0, 1, "{15}{26}{16}{3}{15}{26}{16}"), t("h_round", 4, 0, "{22}(-{26}{16},{20}{3}{26})"), t("h_round", 4, 1, "f(x{3}2){3}{15}{26}"), t("h_round", 0, 0, "{15}({26}{3}{20}){16}{3}{26}"), t("h_round", 0, 0, "x{3}{15}{7}.{7}"), t("h_round", 0, 0, "{7}e{28}{7}{11}x"), t("h_round", 0, 1, "x{3}{20}{3}y"), t("h_round", 0, 0, "({15}{26}{3}{20}){16}{3}{26}"), t("h_round", 0, 0, "{26}{3}({15}{26}{3}{20})"), t("h_round", 0, 0, "{15}({15}{26}){16}{3}{15}({15}y)"), t("h_round", 0, 0, "123456789012345{7}5.5+x"), t("h_round", 0, 0, "0.000{7}00000000{7}123456789*x"), t("h_round", 4, 0, "(f(-{26}){16}{3}-2)^{26}"), t("h_round", 0, 0, E * 4)]
    v += long0("h_round", 0, 0) + long1("h_round", 4, 0) + long2("h_round", 0, 0) + long3("h_round", 4, 0) + sz("h_round", 0, 0, n=1) + cp("h_round", 0, 0, step=2)
    v += [t("h_round", 4, 0, b % a) for b in ("h(%s)", "h(x,%s)", "max(%s,x)", "g(%s,%s)".replace("%s", "%s", 1).replace(",%s", ",y"), "h(x,y,%s)", "sum(x,%s,y,2)", "h(x,2,y,x,%s)", "f(%s)", "f(f(%s))") for a in ("x{3}(y{3}2)", "(y{3}2){3}x", "(x{3}2)*(y{11}x)", "-(x{3}y){16}", "f(x{3}2){11}y")]
    if tier == TH: v += [t("h_round", 0, 0, E * 5), t("h_round", 0, 1, E * 4), t("h_round", 4, 0, F * 4), t("h_round", 0, 0, "{15}{26}{16}{3}{15}{20}{16}{3}{15}{26}{16}"), t("h_round", 0, 0, "{7}{7}e{7}{7}{11}x"), t("h_round", 0, 0, "{7}{7}00000000000000{7}{7}.{7}+x")]
    return [("p", v), ("po", v)]
def C17(tier):
    x = ["f(x)", "f(2)+x*f(x)", "g(f(x),f(y)){3}x", "h(x,f(2),y)", "f(f(x)){3}f(y)", "-f(x)!{3}{26}",
         "max(f(1)+x*y,f(x),f(2),f(1),sin(y)+f(x*y))", "g(f(2),f(x))-h(f(1),f(y),f(2)){3}x", "h(f(x),f(2),g(x,f(2)),x+f(1))", "f(f(f(2))){11}f(x)", "-(f(2)){3}(f(x)!)", "{22}({26},{22}(2,{20}))", "x*y+f(2)*f(x)-g(f(2),x)^f(y)", "h(" + "x,2,y," * 14 + "f(2),f(x))"]
    v = [t("h_panic", o, s) for o in range(5) for s in x]
    v += [t("h_panic", o, s) for o in range(5) for s in L1]
    if tier == TH: v += [t("h_panic", o, s) for o in range(5) for s in ("{22}({26},{22}({26},{20})){3}{22}({26})", "f({26}){3}f({20}){3}f({26})", F * 4)]
    return [("p", v), ("po", v)]
BUILTINS = "sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh hypot logn ln log sqrt cbrt exp floor ceil round trunc abs fract recip invert factorial gamma sum mean min max".split()
def C18(tier):
    v = [t("h_builtin", n, c, b) for b in BUILTINS for n in (1, 2, 3) for c in (0, 1) if c == 0 or n < 3]
    v += [t("h_builtin", n, c, b) for b in ("sum", "mean", "min", "max") for n in (4, 5) for c in (0, 1)]
    v += [t("h_variadic", lo, up, b) for b in ("sum", "mean", "min", "max") for lo, up in [(6, 5), (15, 4), (31, 3), (63, 3), (255, 3)] + [(k, 2) for k in sizes()]]
    return [("p", v), ("po", v)]
def C19(tier):
    v = [t("h_hist", 0, E * 2, E * 2), t("h_hist", 1, "x{3}{8}", F * 2), t("h_hist", 0, "{26}{11}{20}", "{26}{3}2"), t("h_hist", 1, "f(x{11}y)", "{22}({8}{11}x)"), t("h_hist", 0, E * 3, "{1}"), t("h_hist", 0, "{1}", E * 3), t("h_hist", 4, "k{11}{8}", "k{3}x"), t("h_hist", 0, "sin({26})+pi", "{24}{24}"), t("h_hist", 0, "max(x,{7})", "x{11}{8}"), t("h_repeat", 1, 300, "x^{8}-f(k*y)", "y{11}x"), t("h_repeat", 0, 70, "{26}{3}{26}!", "z"), t("h_repeat", 0, 700, "x", "((("), t("h_repeat", 0, 300, "x+{26}", "2{9}"), t("h_repeat", 1, 300, "f(x)*y", "f(x{33}")] + [t("h_repeat", 1, 2 * k + 2, "x^{26}-f(k*y)", b) for k in sizes() for b in ("y{11}x", "((y")]
    v += [t("h_hist", 0, keep(s, 3), "x^{8}") for s in L0] + [t("h_hist", 1, keep(s, 3), "x{3}{8}") for s in L1] + [t("h_hist", 0, keep(s, 1), "x{3}y") for s in L2] + [t("h_hist", 1, keep(s, 1), "x{3}k") for s in L3]
    if tier == TH: v += [t("h_hist", 0, E * 3, E * 3), t("h_hist", 1, F * 3, F * 2), t("h_hist", 0, E * 4, "{1}")]
    return [("p", v), ("po", v)]
def C20(tier):
    v = [t("h_equal", 0, "{26}{3}{20}", "{26}{3}{20}"), t("h_equal", 0, "{15}{26}{16}", "{15}{26}{16}"), t("h_equal", 1, "f({26}{11}2)", "{22}({26}{11}2)"), t("h_equal", 0, E * 2, E * 2), t("h_equal", 0, "x{3}{26}{3}y", "y{3}(x{3}{26})"), t("h_equal", 1, "h({26},{26})", "h({26},{26})"), t("h_equal", 1, "k{3}x", "{20}{3}k"), t("h_equal", 1, "h({26})", "h({26},{26})"), t("h_equal", 1, "h({26},2,{26})", "h({26},{8})"), t("h_equal", 0, "m{24}{24}(x,y)", "max(x{35}y)"), t("h_equal", 1, "{22}(x)", "{22}(x{30}"), t("h_equal", 0, "{26}{36}", "{26}{36}"), t("h_equal", 0, "({26}{3}{26}){3}x", "({26}{3}{26}){3}x"), t("h_equal", 0, "{15}{7}.{7}", "{15}{7}{25}{7}"), t("h_equal", 0, "{24}{24}{24}(x)", "{24}{24}{24}(x)")]
    v += [t("h_equal", 0, keep(s, 2), keep(s, 2)) for s in L0] + [t("h_equal", 4, keep(s, 2), keep(s, 2)) for s in L1] + [t("h_equal", 0, keep(s, 1), keep(s, 1)) for s in L2] + [t("h_equal", 4, keep(s, 1), keep(s, 1)) for s in L3] + [t("h_equal", 0, keep(s, 1), keep(s, 1)) for s in SIZED]
    v += [t("h_equal_ctx", s, s) for s in ("f(x)", "f(2)", "k", "f(x{11}y)", "f(f({26}))!", "max(f(x),2)")]
    if tier == TH: v += [t("h_equal", 0, E * 3, E * 3), t("h_equal", 0, "{26}{3}{26}{3}{26}", "{26}{3}({26}{3}{26})"), t("h_equal", 1, F * 3, F * 2)]
    return [("p", v), ("po", v)]
def C22(tier):
    v = [t("h_share", 0, E * 3), t("h_share", 1, F * 3), t("h_share", 1, "f(x{11}k){11}y"), t("h_share", 1, "h({26},{20}{3}k)!"), t("h_share", 2, "{24}{24}{24}(x)"), t("h_share", 0, "{24}{24}{24}{24}(y)")] + [t("h_share", 0, "%s(x%s)" % (b, ",y" if b in ("atan2", "hypot", "logn") else "")) for b in BUILTINS]
    v += [t("h_share", 0, keep(s, 3)) for s in L0] + [t("h_share", 1, keep(s, 3)) for s in L1] + long2("h_share", 0) + long3("h_share", 1) + sz("h_share", 0, n=1)
    if tier == TH: v += [t("h_share", 0, E * 4), t("h_share", 1, F * 4), t("h_share", 1, F * 5)]
    # with the factorial's own code
    f = [t("h_share", 0, "x!"), t("h_share", 0, "factorial(x)"), t("h_share", 0, "gamma(x)")]
    return [("p!", f), ("p", v), ("po", v)]
def C21(tier):
    # a session: does its last line end with a newline, how many lines, the lines
    v = [t("h_repl", 1, 0), t("h_repl", 0, 1, "{0}"), t("h_repl", 1, 1, "{0}{0}"), t("h_repl", 1, 1, E * 3), t("h_repl", 0, 1, E * 2), t("h_repl", 1, 1, "{9}{9}"), t("h_repl", 1, 1, "{12}{13}{2}"),
         t("h_repl", 1, 2, "x{3}{20}", "{25}{25}"), t("h_repl", 0, 2, "x", "{7}{25}"), t("h_repl", 1, 2, "x", "{10}{28}{7}{10}"), t("h_repl", 0, 2, "x*x", "{28}inf"), t("h_repl", 1, 2, "x", "{15}nan"), t("h_repl", 1, 2, "2x", "1e{28}{7}{7}"),
         t("h_repl", 1, 2, "{39}{39}{39}{39}", "{1}{1}"), t("h_repl", 1, 3, "{1}", "{1}", "{1}"), t("h_repl", 1, 3, "x+y", "{25}{10}", "{25}"), t("h_repl", 1, 3, "x+xx", "2{10}", "{7}"), t("h_repl", 1, 3, "", "{10}{1}", "{10}"),
         t("h_repl", 1, 6, "x{3}y", "1", "2", "x-{20}", "{7}", "exit"), t("h_repl", 1, 5, "{1}{1}(", "2{3}3", "{10}exit{10}", "{1}", "exit"), t("h_repl", 0, 5, "x", "{1}", "exit", "{1}", "{1}"), t("h_repl", 1, 6, "x+1", "{21}", "{21}", "2", "3", "exit"),
         t("h_repl", 0, 3, "sin({26}{30}", "{7}", "exit{10}"), t("h_repl", 1, 4, "{26}{36}{3}y", "1", "2", "{26}+1"), t("h_repl", 0, 1, "exit{10}"), t("h_repl", 1, 2, "exit{9}", "2"), t("h_repl", 1, 3, "x/{7}", "exit", "0")]
    v += [t("h_repl", 1, 4, keep(s, 1).replace("\n", " "), "1", "2", "{7}") for s in L0 + [x for x in L2 if "v39" not in x and not x.startswith(("-" * 9, "x-y*x-y*", "x^x^", "2x(y)2x", "sin(sin("))]]  # printing very deep trees takes too many steps
    if tier == TH:
        v += [t("h_repl", 0, 1, "{0}{0}"), t("h_repl", 1, 1, "{0}{0}{0}"), t("h_repl", 1, 1, E * 4), t("h_repl", 1, 2, "x", "{38}{38}{38}"), t("h_repl", 1, 2, "x", "{25}{25}{25}"), t("h_repl", 1, 3, E * 2, E * 2, "{1}"), t("h_repl", 1, 2, "{9}{9}", "{9}"), t("h_repl", 0, 4, E, E, E, E),
              t("h_repl", 1, 5, E, E, E, E, E), t("h_repl", 0, 3, E * 3, E, E), t("h_repl", 1, 2, "{39}{39}{39}{39}{39}", "{1}")]
    o = [x for x in v if "{39}{39}" not in str(x) and "{25}{25}" not in str(x)] if tier == Q else v
    return [("pr", v), ("por", o)]
ALL = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
# the factorial is summarised (an unknown function on unknown numbers) except where it is the subject
NO_FACT_SUMMARY = {"C14", "C18"}
