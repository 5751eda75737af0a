//! Formulas that reach simplification rules and evaluator patterns random ones seldom reach: idioms of
//! the rules' own patterns, with one to four one-letter variables.
#[rustfmt::skip]
pub const BANK: &[&str] = &[
    "((((((x))))))",
    "((((x + 0) * 1) / 1) - 0) ^ 1",
    "((((x))))",
    "((-y) * y) - (y + y)",
    "((x+1",
    "(-1 * x + 1)",
    "(-1 * x) / (-1 * y)",
    "(-1 + x)",
    "(-1 + x)^2",
    "(-1 + x^2)",
    "(-y + x)",
    "(1 + -x)",
    "(1 + 2*x)^2",
    "(1 + x)",
    "(1 + x) * (1 - x)",
    "(1 + x)^2",
    "(1 - x)",
    "(1+x)*exp(x)",
    "(2*x + 1)^2",
    "(2*x)^2",
    "(2*x)^2 - (3*y)^2",
    "(2*z)",
    "(2*z)^x",
    "(2z)",
    "(3*y)^2",
    "(3-x)*(3+x)",
    "(a * b) / (c * d)",
    "(c + v) * (1 - v / c)",
    "(exp(x) + exp((-1) * x)) / 2",
    "(exp(x) + exp(-x))/2",
    "(exp(x) - exp((-1) * x)) / 2",
    "(exp(x) - exp(-x))/2",
    "(sin(x) * exp(x) + cos(x)) / (ln(x) * x^2 - tan(x))",
    "(sin(x) - x*cos(x))/sin(x)^2",
    "(sqrt(x))^2",
    "(x + -1)",
    "(x + -1)^2",
    "(x + -1*y)",
    "(x + 1",
    "(x + 1)",
    "(x + 1)^2",
    "(x + y)",
    "(x + y) * (x - y)",
    "(x + y) * z",
    "(x + y)^2",
    "(x - 1)",
    "(x - 1)^2",
    "(x - 1)^2 * (x + 1) / (x^2 - 1)",
    "(x - 1)^2 / (x - 1)",
    "(x - y)",
    "(x)",
    "(x)(x)",
    "(x)^-1",
    "(x)^6",
    "(x*cos(x) - sin(x))/x^2",
    "(x+1",
    "(x+1)^2",
    "(x+y)/(x*y)",
    "(x-2)*(x+2)",
    "(x-y)*(x+y)",
    "(x^2 + -1)",
    "(x^2 + 1) / (x - 1)",
    "(x^2 + 1)/(x - 1)",
    "(x^2 - 1)",
    "(x^2 - 1) / (x - 1)",
    "(x^2 - 1)/(x - 1)",
    "(x^2)^(1/2)",
    "(x^2)^3",
    "(y + x)",
    "(z+z)^(-y)",
    "(z+z)^x",
    "+ y^2",
    "+y^2",
    "-(-(x))",
    "-(-x)",
    "-(3*y)^2",
    "-(x",
    "---x",
    "-1 + sin(x)^2",
    "-1 + x",
    "-1/x^2",
    "-2*x",
    "-erf(x)",
    "-sin(exp(x))*exp(x)",
    "-sin(x)",
    "-x * y + z",
    "-x^2 + 1",
    "-x^2 + 2*x*(x + 1) - 1",
    "-x^2 + 2*x^2 + 2*x - 1",
    "-y^2 + y",
    "0^x",
    "1 * exp_polar(x)",
    "1 + x",
    "1 - x^2",
    "1 / (1/x)",
    "1 / sqrt(1 - v^2 / c^2)",
    "1 / sqrt(1 - v^2)",
    "1 / sqrt(a) / sqrt(b)",
    "1/(1+x^2)",
    "1/(2*sqrt(x))",
    "1/(sqrt(a)*sqrt(b))",
    "1/(x^2 - 1) - 1/(x^2 + 1)",
    "1/sqrt(1-v^2/c^2)",
    "1/sqrt(a*b)",
    "1/sqrt(x)",
    "1/x",
    "1/x + 1/y",
    "1e10*x",
    "2 * x",
    "2 * x / 4",
    "2 + 3*x^2",
    "2(x+1)",
    "2*(x + y)",
    "2*a",
    "2*a*x",
    "2*log(b, abs(x))",
    "2*sin(x)*cos(x)",
    "2*x",
    "2*x + 3*x",
    "2*x + cos(x)",
    "2*x*cos(x^2)",
    "2*x*e^(x^2)",
    "2*x*exp(x^2)",
    "2*x*ln(x) + x",
    "2*x^2",
    "2*x^2 + 3*x + 1",
    "2*y",
    "2/x",
    "3 * sin(x) - 4 * sin(x)^3",
    "3 + 2*x",
    "3*log",
    "3*x",
    "3*x + 5",
    "3*x + x",
    "3*x - x",
    "3*x^2",
    "3*x^2 + 2*x + 1",
    "3*x^2 + cos(x)",
    "3.0 * sin(x) - 4.0 * sin(x)^3",
    "3.0000000000000001 * sin(x) - 4.0 * sin(x)^3",
    "3.000000001 * sin(x) - 4 * sin(x)^3",
    "3.14*x",
    "3y + 1",
    "4 * sinh(x)^3 + 3 * sinh(x)",
    "4*x",
    "4*x^2 + 4*x + 1",
    "4*x^3 + 6*x - 2",
    "4.0000000000000001 * cos(x)^3 - 3.0 * cos(x)",
    "4.0000000000000001 * sinh(x)^3 + 3.0 * sinh(x)",
    "4x^2 - (3y)^2",
    "5*t^2 + 3*t + 10",
    "5*x",
    "5*x - x",
    "5*x^4 + 3*x^2 + 7",
    "7*x",
    "9 - x^2",
    "9*x^2 - 16",
    "a * b * c + d",
    "a * b + c * d + e",
    "a * f(x)",
    "a * sin(x) - 4 * sin(x)^3",
    "a + a",
    "a - b",
    "a / (b * c)",
    "a / (b / c)",
    "a / b * c",
    "a*b",
    "a*exp(k*x)",
    "a*f(x)",
    "a*x",
    "a*x + b",
    "a*x + b*y + x^2",
    "a*x^2",
    "a*x^2 + b*x + c",
    "a*x^2 + x",
    "a+b",
    "a/(b*c)",
    "a/(b/c)",
    "a^x",
    "abs(-x)",
    "abs(abs(x))",
    "abs(x)",
    "acos(x)",
    "acos(x/10)",
    "acosh(abs(x)+1.1)",
    "acosh(x)",
    "acot(x)",
    "acoth(x)",
    "acsc(x)",
    "acsch(x)",
    "asec(x)",
    "asech(x)",
    "asin(sin(x))",
    "asin(x)",
    "asin(x/10)",
    "asinh(x)",
    "atan(x)",
    "atan2(t, t)",
    "atan2(y, x)",
    "atanh(x)",
    "atanh(x/10)",
    "besseli(2, x)",
    "besselj(0, x)",
    "besselj(1, x)",
    "besselj(2, x)",
    "besselk(1, x)",
    "besselk(2, abs(x)+0.5)",
    "bessely(0, x)",
    "bessely(2, abs(x)+0.5)",
    "beta(abs(x)+1.1, abs(y)+1.2)",
    "beta(t, 2*t)",
    "cbrt(x)",
    "cbrt(x^3)",
    "ceil(x)",
    "cos(2 * x)",
    "cos(2*x)",
    "cos(2x)",
    "cos(cos(2 * x))",
    "cos(cos(2*x))",
    "cos(exp(x))",
    "cos(t)",
    "cos(x)",
    "cos(x)/sin(x)",
    "cos(x)^2 + sin(x)^2",
    "cos(x)^2 - sin(x)^2",
    "cosh(x)",
    "cosh(x)^2 + ((-1) * sinh(x)^2)",
    "cosh(x)^2 - sinh(x)^2",
    "cot(x)",
    "coth(x)",
    "csc(x)",
    "csch(x)",
    "digamma(abs(x)+1.2)",
    "digamma(x)",
    "e^(ln(x))",
    "e^(ln(x^2))",
    "e^(ln(x^2)) + sqrt(x^4)",
    "e^(sin(x) * ln(y))",
    "e^(x^2)",
    "elliptic_e(x/2)",
    "elliptic_k(x/2)",
    "erf(-x)",
    "erf(x)",
    "erfc(x)",
    "exp(-x^2)",
    "exp(-x^2/2)",
    "exp(a + b)",
    "exp(a) * exp(b)",
    "exp(exp(x))",
    "exp(ln(x))",
    "exp(ln(x^2))",
    "exp(ln(x^2)) + sqrt(x^4)",
    "exp(sin(x))",
    "exp(sin(x))*cos(x)",
    "exp(x / (-a))",
    "exp(x)",
    "exp(x) + ln(x)",
    "exp(x) + sqrt(x)",
    "exp(x) + y",
    "exp(x) - 1",
    "exp(x)*exp(exp(x))",
    "exp(x)/sin(x)",
    "exp(x)^2",
    "exp(x^2)",
    "exp(x^2)*sin(x)",
    "exp_polar(x)",
    "f(3)",
    "f(g(x))",
    "f(x)",
    "f(x) * g(x)",
    "f(x) + 1",
    "f(x) + x",
    "f(x^2)",
    "floor(x)",
    "gamma(abs(x)+1.2)",
    "gamma(digamma(x + 1))",
    "gamma(x)",
    "hermite(5, x)",
    "k*x + k*x",
    "k*x + k*y",
    "lambertw(x)",
    "lambertw(x/10)",
    "lambertw(x^2)",
    "ln(1 + x^2)",
    "ln(cos(x))",
    "ln(e^x)",
    "ln(exp(x))",
    "ln(sin(x))",
    "ln(x)",
    "ln(x) + x^2",
    "ln(x^2)",
    "log(10, x)",
    "log(2, abs(x)+1.1)",
    "log(2, x)",
    "log(b, 16)",
    "log(b, x)",
    "log(b, x)/2",
    "log(e, x)",
    "log10(x)",
    "log2(x)",
    "polygamma(0, x)",
    "polygamma(2, abs(x)+1.2)",
    "polygamma(2, x^2)",
    "round(x)",
    "sec(x)",
    "sech(x)",
    "signum(x)",
    "sin(2 * x)",
    "sin(2*x)",
    "sin(a)",
    "sin(a*y) + c*cos(a*x)",
    "sin(b*x) + d*cos(b*y)",
    "sin(beta)",
    "sin(cos(2*x))",
    "sin(cos(exp(x)))",
    "sin(cos(tan(exp(ln(x)))))",
    "sin(cos(tan(exp(ln(x^2)))))",
    "sin(cos(x))",
    "sin(coth(x))",
    "sin(exp(ln(x)))",
    "sin(exp(x))^2",
    "sin(t)",
    "sin(t) * cos(t)",
    "sin(x)",
    "sin(x) * cos(x)",
    "sin(x) * cos(x) + exp(-x^2)",
    "sin(x) * cos(x) + x^2",
    "sin(x) * cos(y) + 0.1 * (x^2 + y^2) - 0.2 * cos(1.5 * x - 1.0) * sin(2.0 * y) + 0.2 * erf(x/2.0) * erf(y/2.0)",
    "sin(x) * cos(y) + exp(x/y)",
    "sin(x) * x",
    "sin(x) + cos(0)",
    "sin(x) + cos(x)",
    "sin(x) + x*cos(x)",
    "sin(x) / x",
    "sin(x)*cos(x)",
    "sin(x)/(1 + cos(x))",
    "sin(x)/cos(x)",
    "sin(x)/x",
    "sin(x)^2",
    "sin(x)^2 + cos(x)^2",
    "sin(x,y)",
    "sin(x^2)",
    "sinc(x)",
    "sinh(x)",
    "sinh(x)*cosh(x)",
    "sqrt((c + v) * (1 - v / c) / c)",
    "sqrt(sqrt(x))",
    "sqrt(x)",
    "sqrt(x) / x",
    "sqrt(x)^2",
    "sqrt(x^2 + 1)",
    "sqrt(x^2)",
    "sqrt(x^4)",
    "t * sqrt(1 - v^2 / c^2)",
    "t^2",
    "tan(x)",
    "tan(x) * x",
    "tan(x) + cot(x)",
    "tanh(x)",
    "tetragamma(abs(x)+1.2)",
    "trigamma(abs(x)+1.2)",
    "trigamma(x)",
    "x * 1",
    "x * exp(x) * sin(x) * ln(x)",
    "x * sin(x)",
    "x * sin(y)",
    "x * x",
    "x * x * x",
    "x * x^2 * x^3 * x^4 * x^5 * sin(x) * cos(x) * exp(x) * ln(x) * sqrt(x)",
    "x * y",
    "x * y * z",
    "x * y + 1",
    "x * y + z",
    "x * y - z",
    "x + (y + z)",
    "x + 0",
    "x + 1",
    "x + 1)",
    "x + 2",
    "x + 3*x",
    "x + f",
    "x + x",
    "x + x + 0",
    "x + x + sin(x)^2 + cos(x)^2",
    "x + x + x",
    "x + y",
    "x + y + z",
    "x - 1",
    "x - 3*x",
    "x - 5",
    "x - a",
    "x / (-1 * y)",
    "x / (x + 1)",
    "x / (x - x)",
    "x / (y * -1)",
    "x / (y / z)",
    "x / -2",
    "x / 2",
    "x / y",
    "x ^ x",
    "x*(x*(x+1))",
    "x*1 + 0",
    "x*exp(x)",
    "x*sin(x)",
    "x*sin(x)*exp(x)",
    "x*y",
    "x*y + z",
    "x+1)",
    "x+y",
    "x/(1+x)",
    "x/(x+1)",
    "x/2",
    "x/exp(x)",
    "x/sin(x)",
    "x^(-1)",
    "x^(-100)",
    "x^(1 + x - 1)",
    "x^(2*x)",
    "x^(3 * 1 / 3)",
    "x^(x^x)",
    "x^0.001",
    "x^0.5",
    "x^1",
    "x^100",
    "x^2",
    "x^2 * x^3",
    "x^2 * y",
    "x^2 * y + y^3",
    "x^2 + (1 + x) * (1 - x) + 1",
    "x^2 + 1",
    "x^2 + 2*x",
    "x^2 + 2*x + 1",
    "x^2 + 2*x - 1",
    "x^2 + 3*x + 1",
    "x^2 + a*x",
    "x^2 + sin(x)",
    "x^2 + sin(y)",
    "x^2 + sin(y) + z",
    "x^2 + y",
    "x^2 + y^2",
    "x^2 - 1",
    "x^2 - 4",
    "x^2 - y^2",
    "x^2*exp(-x^2)",
    "x^2*exp(x)",
    "x^2*ln(x)",
    "x^2*y",
    "x^2*y + y^3",
    "x^2/x",
    "x^3",
    "x^3 + 2*x + 1",
    "x^3 + 2*x^2 + 3*x + 4",
    "x^3 + 2*x^2 - x + 1",
    "x^3 + 3*x^2 + 3*x + 1",
    "x^3 + sin(x)",
    "x^3 + x^2 + x + 1",
    "x^3 + y^3",
    "x^3 - 2*x + 1",
    "x^3 - x^2 - x + 1",
    "x^3 - y^3",
    "x^4 + 3*x^2 - 2*x + 7",
    "x^4 - 1",
    "x^5 + x^3 - x",
    "x^6",
    "x^x",
    "x^x * (ln(x) + 1)",
    "x^y^z",
    "y * 2",
    "y * x",
    "y * y * y",
    "y + x",
    "y + z + 2*y",
    "y - y^2",
    "y(x)/x",
    "y^(sin(x))",
    "y^2",
    "zeta(abs(x)+2.0)",
    "zeta(s)",
    "(-x)*y",
    "(-x)^2",
    "(-x)^4",
    "(1 + x)^(1/x)",
    "(1 - x)/(x - 1)",
    "(12*x + 18*y)/30",
    "(2*x + 4)/(x + 2)",
    "(2*x)^3",
    "(3*tanh(x) + tanh(x)^3)/(1 + 3*tanh(x)^2)",
    "(4*x)^0.5",
    "(4*x*y + 8*x)/(2*x)",
    "(6*x^2 + 9*x)/(3*x)",
    "(a*x + b*x)/(c*x)",
    "(a/b)/(c/d)",
    "(cosh(x) + sinh(x))*(cosh(x) - sinh(x))",
    "(cosh(x) - 1)*(cosh(x) + 1)",
    "(e^(2*x) + 1)/(2*e^x)",
    "(e^(2*x) + 1)/(e^(2*x) - 1)",
    "(e^(2*x) - 1)/(2*e^x)",
    "(e^(2*x) - 1)/(e^(2*x) + 1)",
    "(e^x + 1/e^x)/2",
    "(e^x + e^(-x))/(e^x - e^(-x))",
    "(e^x + e^(-x))/2",
    "(e^x - 1/e^x)*e^x",
    "(e^x - 1/e^x)/2",
    "(e^x - e^(-x))/(e^x + e^(-x))",
    "(e^x - e^(-x))/2",
    "(exp(-x) - exp(x))/2",
    "(exp(2*x) + 1)/(2*exp(x))",
    "(exp(2*x) - 1)/(2*exp(x))",
    "(exp(2*x) - 1)/(exp(2*x) + 1)",
    "(exp(x) - 1/exp(x))/(exp(x) + 1/exp(x))",
    "(x + 1)*(x + 2)*(x + 3)*(x + 4)*(x + 5)*(x + 6)*(x + 7)*(x + 8)*(x + 9)*(x + 10)*(x + 11)",
    "(x + 1)*(x - 1)",
    "(x + 1/y)/(x - 1/y)",
    "(x + y)*(x + z)/(x + y)",
    "(x + y)*z - x*z - y*z",
    "(x + y)^2 - (x - y)^2",
    "(x + y)^3 + 2*(x + y)^2 + 1",
    "(x + y/z)/w",
    "(x - y)/(y - x)",
    "(x*y + x*z)/x",
    "(x*y)^(-2)",
    "(x/2)*(4/y)",
    "(x/y)/z",
    "(x/y)^(-2)",
    "(x^2 + 2*x + 1)/(x + 1)",
    "(x^2 - 5*x + 6)/(x - 2)",
    "(x^2 - y^2)/(x + y)",
    "(x^2*y + x*y^2)/(x*y)",
    "(x^2*y^4)^0.5",
    "(x^3 - 1)/(x - 1)",
    "(x^a)^b",
    "(x^y)^z",
    "-(x*y)/z",
    "-3*cos(x) + 4*cos(x)^3",
    "-3*cosh(x) + 4*cosh(x)^3",
    "-4*sin(x)^3 + 3*sin(x)",
    "-6*x/(-4*y)",
    "-x + y",
    "-x - y",
    "0 - x",
    "1 + cot(x)^2",
    "1 + sinh(x)^2",
    "1 + tan(x)^2",
    "1 - 2*sin(x)^2",
    "1 - cos(x)^2",
    "1 - sin(x)^2",
    "1 - tanh(x)^2",
    "1 - x",
    "1 - x*y",
    "1*x",
    "1.5*x + 2.5*x",
    "1/(1/x)",
    "1/(exp(x) - 1)",
    "1/(x + 1) + 1/(x - 1)",
    "1/(x*sqrt(x))",
    "1/(x/y)",
    "1/cos(x)",
    "1/cos(x)^3",
    "1/cosh(x)",
    "1/cot(x)",
    "1/coth(x)",
    "1/csc(x)",
    "1/csch(x)",
    "1/sec(x)",
    "1/sech(x)",
    "1/sin(x)",
    "1/sin(x)^2",
    "1/sinh(x)",
    "1/tan(x)",
    "1/tanh(x)",
    "1/x - 1/y",
    "1/x^2",
    "1/x^3",
    "10^x*2^y",
    "12/18*x",
    "2 + 3*x - 2",
    "2 - x",
    "2*cos(x)^2 - 1",
    "2*e^x/(e^(2*x) + 1)",
    "2*e^x/(e^(2*x) - 1)",
    "2*exp(x)/(exp(2*x) + 1)",
    "2*ln(x)",
    "2*sinh(x)*cosh(x)",
    "2*sqrt(x)^3 - sqrt(x)",
    "2*tan(x)/(1 - tan(x)^2)",
    "2*x + 3*y - z",
    "2*x*y + 2*x*z",
    "2*x^6 - 3*x^2",
    "2/(e^x + e^(-x))",
    "2/(e^x - e^(-x))",
    "2^(x + y)",
    "2^x",
    "3*sin(x) - 4*sin(x)^3",
    "3*sin(x)^2 + 2*sin(x) + 1",
    "3*sinh(x) + 4*sinh(x)^3",
    "3/(x*y)",
    "4*cos(x)^3 - 3*cos(x)",
    "4*cosh(x)^3 - 3*cosh(x)",
    "4*ln(x)^4 + ln(x)",
    "4*x^2 - 12*x*y + 9*y^2",
    "5*exp(x)^3 - 2*exp(x) + 7",
    "6*x/4",
    "a*x^2 + a*y^2 + a*z^2",
    "a/b + c/d",
    "a/b - c/b",
    "abs(2*x)",
    "abs(x)*signum(x)",
    "abs(x)/x",
    "abs(x)^2",
    "abs(x)^3",
    "abs(x*y)",
    "abs(x^2)",
    "acos(0)*x",
    "acos(cos(x))",
    "acosh(cosh(x))",
    "asin(1)*x",
    "asinh(sinh(x))",
    "atan(1)*x",
    "atan(tan(x))",
    "atan2(x*y, x + y)",
    "besseli(1, sin(x))",
    "besselj(0, x)*besselj(0, x)",
    "besselj(1, x*y)",
    "besselk(2, x + 1)",
    "bessely(0, x^2)",
    "beta(x, y)",
    "cbrt(8*x)",
    "cbrt(x)*cbrt(y)",
    "cbrt(x)^3",
    "cos(-x)",
    "cos(3*pi/2 - x)",
    "cos(acos(x))",
    "cos(asin(x))",
    "cos(pi - x)",
    "cos(pi/2 - x)",
    "cos(pi/3)*x",
    "cos(x + 2*pi)",
    "cos(x + pi)",
    "cos(x) + cos(y)",
    "cos(x) - cos(y)",
    "cos(x)*cos(y)",
    "cos(x)*cos(y) + sin(x)*sin(y)",
    "cos(x)*cos(y) - sin(x)*sin(y)",
    "cosh(-x)",
    "cosh(acosh(x))",
    "cosh(x)/sinh(x)",
    "cosh(x)^2 + sinh(x)^2",
    "cosh(x)^2 - 1",
    "cot(pi/2 - x)",
    "coth(-x)",
    "coth(x)^2 - 1",
    "csc(pi/2 - x)",
    "csc(x)^2 - 1",
    "csch(-x)",
    "e^(2*ln(x))",
    "e^ln(x)",
    "e^x*e^y",
    "elliptic_k(x)*elliptic_e(x)",
    "erf(x)^2 + erfc(x)^2",
    "exp((-x*y)/z)",
    "exp(-(x*y)/z)",
    "exp(-(x^2)/2)",
    "exp(-x*y)",
    "exp(-x/y)",
    "exp(2*ln(x))",
    "exp(ln(x) + y)",
    "exp(ln(x))*ln(exp(y))",
    "exp(x)*e",
    "exp(x)*exp(y)",
    "exp(x)*y + exp(x)*z - exp(x)",
    "exp(x)/exp(y)",
    "floor(-x)",
    "floor(x) + ceil(x) - round(x)",
    "gamma(x + 1)/gamma(x)",
    "gamma(x)*digamma(x)",
    "hermite(3, x)",
    "lambertw(x)*exp(lambertw(x))",
    "ln(1 + x)",
    "ln(1/x)",
    "ln(e)*x",
    "ln(sqrt(x))",
    "ln(x + 1)",
    "ln(x) + ln(y)",
    "ln(x) - ln(y)",
    "ln(x)*2 + ln(y)*3",
    "ln(x*y)",
    "ln(x/y)",
    "ln(x^3)",
    "log(2, 8)*x",
    "log(x, x^2)",
    "log10(100)*x",
    "log10(x) + log10(y)",
    "log10(x^3)",
    "log2(2^x)",
    "log2(8*x)",
    "polygamma(1, x)",
    "sec(pi/2 - x)",
    "sec(x)^2 - tan(x)^2",
    "sech(-x)",
    "sign(x)*x",
    "signum(-x)",
    "signum(2*x)",
    "signum(signum(x))",
    "sin(-x)",
    "sin(-x*y)",
    "sin(2*pi - x)",
    "sin(acos(x))",
    "sin(asin(x))",
    "sin(pi - x)",
    "sin(pi)*x + cos(pi)",
    "sin(pi/2 - x)",
    "sin(pi/4) + cos(pi/4) + x",
    "sin(pi/6) + x",
    "sin(x + 2*pi)",
    "sin(x + pi)",
    "sin(x) + sin(x)^2 + sin(x)^3",
    "sin(x) + sin(y)",
    "sin(x) - sin(y)",
    "sin(x)*cos(x)*tan(x)*exp(x)*ln(x)*sqrt(x)*sinh(x)*cosh(x)*tanh(x)*atan(x)*x",
    "sin(x)*cos(y) - cos(x)*sin(y)",
    "sin(x)*sin(x)",
    "sin(x)*sin(x)*sin(x)*sin(x)",
    "sin(x)*sin(y)",
    "sin(x)*y + sin(x)*z",
    "sin(x)^2 - 1",
    "sin(x)^2/cos(x)^2",
    "sin(x)^cos(x)",
    "sin(x*y)/(x*y)",
    "sinc(x)*x",
    "sinc(x*y)",
    "sinh(-x)",
    "sinh(0)*x + cosh(0)",
    "sinh(asinh(x))",
    "sinh(x)*cosh(y) + cosh(x)*sinh(y)",
    "sinh(x)/cosh(x)",
    "sqrt(2)*sqrt(3)*x",
    "sqrt(4*x^2)",
    "sqrt(8*x^3)",
    "sqrt(x)*abs(x)",
    "sqrt(x)*sqrt(y)",
    "sqrt(x)/sqrt(y)",
    "sqrt(x)/x",
    "sqrt(x*y)",
    "sqrt(x/y)",
    "tan(-x)",
    "tan(2*x)",
    "tan(atan(x))",
    "tan(pi/2 - x)",
    "tan(pi/4)*x",
    "tan(x + pi)",
    "tan(x)*cot(x)",
    "tanh(-x)",
    "tanh(atanh(x))",
    "tanh(x)*coth(x)",
    "x - (-y)",
    "x - 0",
    "x*(-y)",
    "x*(1/y)",
    "x*(y + z) - x*y",
    "x*(y/z)*w",
    "x*0 + y",
    "x*1 + y*(-1)",
    "x*x*x*y*y",
    "x*y + x*z + w*y + w*z",
    "x*y - z",
    "x*y*z*sin(x)*sin(y)*sin(z)*cos(x)*cos(y)*cos(z)*exp(x)*exp(y)",
    "x*y*z*x*y*z",
    "x/(-1)",
    "x/(-y)",
    "x/(exp(x) - 1)",
    "x/(x + 1) + 1/(x + 1)",
    "x/(y/z)",
    "x/1",
    "x/3 + x/6",
    "x/sqrt(x)",
    "x/y + y/x",
    "x^(-0.5)",
    "x^(-1.5)",
    "x^(-1/2)*y",
    "x^(-2)",
    "x^(-3)",
    "x^(-3/2)",
    "x^(-5)",
    "x^(-a*b)",
    "x^(1/2)",
    "x^(1/3)",
    "x^(1/3)*x^(2/3)",
    "x^(2*y)",
    "x^(3/2)",
    "x^(y + z)",
    "x^0*y",
    "x^0.25",
    "x^1 + y^0",
    "x^1.5",
    "x^2 + 4*x*y + 4*y^2",
    "x^2 - 2*x + 1",
    "x^2 - 5*x + 6",
    "x^2*y/(x*y^2)",
    "x^2/sqrt(x)",
    "x^2/x^5",
    "x^20 + x",
    "x^4 - y^4",
    "x^4*y^4",
    "x^5 + x^3 + x",
    "x^5/x^2",
    "x^7",
    "x^a/x^b",
    "z - x*y",
    "zeta(x)^2",
    "sin(1.5707963267948966 - x)",
    "sin(pi/2 - x*y)",
    "cos(1.5707963267948966 - x)",
    "cos(pi/2 - x*y)",
    "tan(1.5707963267948966 - x)",
    "tan(pi/2 - x*y)",
    "cot(1.5707963267948966 - x)",
    "cot(pi/2 - x*y)",
    "sec(1.5707963267948966 - x)",
    "sec(pi/2 - x*y)",
    "csc(1.5707963267948966 - x)",
    "csc(pi/2 - x*y)",
    "sin(6.283185307179586 + x)",
    "sin(3.141592653589793 - x)",
    "sin(pi + x)",
    "sin(x*y + 3.141592653589793)",
    "sin(3*pi/2 - x)",
    "sin(4.71238898038469 - x)",
    "sin(x + 4*pi)",
    "sin(x - 2*pi)",
    "sin(3*pi/2 + x)",
    "cos(6.283185307179586 + x)",
    "cos(3.141592653589793 - x)",
    "cos(pi + x)",
    "cos(x*y + 3.141592653589793)",
    "cos(4.71238898038469 - x)",
    "cos(x + 4*pi)",
    "cos(x - 2*pi)",
    "cos(3*pi/2 + x)",
    "3*sin(x*y) - 4*sin(x*y)^3 + y",
    "4*sinh(x)^3 + 3*sinh(x)",
    "(exp(x) - exp(-x))/(exp(x) + exp(-x))",
    "(exp(x) + exp(-x))/(exp(x) - exp(-x))",
    "2/(exp(x) + exp(-x))",
    "2/(exp(x) - exp(-x))",
    "(exp(2*x) + 1)/(exp(2*x) - 1)",
    "(exp(x) - 1/exp(x))/2",
    "(1/exp(x) + exp(x))/2",
    "2*exp(x)/(exp(2*x) - 1)",
    "(exp(x)^2 - 1)/(exp(x)^2 + 1)",
    "sech(x)^2 + tanh(x)^2",
    "coth(x)^2 - csch(x)^2",
    "atanh(tanh(x))",
    "sinh(0) + cosh(0) + x",
    "(cosh(x) - sinh(x))*(cosh(x) + sinh(x))",
    "(sinh(x) + cosh(x))*(cosh(x) - sinh(x))",
    "sin(x + y)",
    "cos(x - y)",
    "sin(x)*cos(y) + cos(x)*sin(y)",
    "(cos(x) - sin(x))*(cos(x) + sin(x))",
    "(1 - cos(x)^2)/sin(x)",
    "sec(x)^2 - 1",
    "sin(x)*csc(x)",
    "sin(pi) + cos(pi) + tan(pi/4) + x",
    "sin(pi/6)*x + cos(pi/3)*y",
    "tan(pi/2 - x)*tan(x)",
    "x^2 + 2*x*y + y^2",
    "x^2 - 2*x*y + y^2",
    "x^3 + 3*x^2*y + 3*x*y^2 + y^3",
    "x^3 - 3*x^2*y + 3*x*y^2 - y^3",
    "(x^2 + 3*x + 2)/(x + 1)",
    "(x^4 - 1)/(x^2 - 1)",
    "4*x^2 - 9",
    "4*x^2 + 12*x + 9",
    "x^2*y + x*y^2",
    "6*x*y + 9*x*z",
    "a*x + b*x + a*y + b*y",
    "x*exp(y) + z*exp(y)",
    "3*(x + y) + 5*(x + y)",
    "(x + y)^2/(x + y)",
    "(x + y)*(x - y)/(x - y)",
    "x/(x*y + x*z)",
    "(2*x + 2*y)/(4*x + 4*y)",
    "(x*y)^3/(x^2*y)",
    "1/(1/x + 1/y)",
    "x/y + z/y",
    "1/x + 1/x^2",
    "sqrt(x)*sqrt(x)",
    "sqrt(x*y^2)",
    "x^(1/2)*x^(1/2)",
    "x^(-1/2)",
    "sqrt(12)*x",
    "sqrt(x/4)",
    "sqrt(1/x)",
    "log10(10^x)",
    "log(3, x)",
    "ln(1) + x",
    "exp(0)*x",
    "exp(-(x - y)^2/(2*z^2))",
    "1/(exp(x) + 1)",
    "x^3/(exp(x) - 1)",
    "x*x*x*x*x*x*y*y*y",
    "(x + y)*(x + y)*(x + y)*z",
    "(-x)*(-y)*(-z)",
    "-1*x*-1*y",
    "x*-2/-4",
    "1/x/x/x",
    "1/(x^2)^2",
    "1/sqrt(x)^3",
    "x^2^2",
    "-(-(-x))",
    "abs(x)*abs(y)",
    "abs(x)/abs(y)",
    "sign(-x)",
    "sign(sign(x))",
    "sign(x)^2",
    "abs(x)*sign(x)",
    "x/abs(x)",
    "abs(-3*x)",
    "sign(2*x)",
    "abs(exp(x))",
    "sign(x^2)",
    "abs(sqrt(x))",
    "x^20 + 3*x^7 + 1",
    "x^31 - 2*x^16 + x - 5",
    "sin(x)^20 + 3*sin(x)^7 + 1",
    "2*(x + y)^12 - (x + y)^3 + 4",
    "x^9 + x^8 + x^7 + x^6 + x^5 + x^4 + x^3 + x^2 + x + 1",
    "3*x^40 - x^2 + 1",
    "exp(x)^9 - 4*exp(x)^3 + exp(x)",
    "x^64 + x^63 - 1",
    "assoc_legendre(2, 1, x)",
    "spherical_harmonic(2, 1, x, y)",
    "ynm(3, 2, x, y)",
    "bessely(1, x)",
    "besseli(1, x)",
    "polygamma(2, x)",
    "atan2(x, y)",
    "zeta_deriv(1, x)",
    "tetragamma(x)",
    "gamma(x + 1)",
    "erf(x)*erfc(x)",
    "elliptic_k(x)",
    "elliptic_e(x)",
    "expm1(x)",
    "log1p(x)",
    "floor(x) + ceil(x) + round(x)",
    "x*y - y*x",
    "0*x + y",
    "0/x",
    "x^0",
    "1^x",
    "x - x",
    "x/x",
    "(x - y)*(y - x)",
    "(a - b)^2/(b - a)",
    "2*x*3*y",
    "x*y*x^2*y^3",
    "2^x*3^x",
    "2^x*2^y",
    "x^y*x^z",
    "x^y/x^z",
    "(x*y)^z",
    "(x/y)^z",
    "x*(y + z) - x*y - x*z",
    "(x + 1)^2 - x^2 - 2*x - 1",
    "(x + y + z)^2",
    "x + (y + (z + (w + 1)))",
    "x*(y*(z*(w*2)))",
    "(x - 1)*(x + 1)*(x^2 + 1)",
    "1 - (1 - (1 - x))",
    "x - (y - (z - w))",
    "x^70 + 2*x^66 + 3*x + 1",
    "x^80 - 0.5*x^2 + x",
    "2*x^65 - x^64 + x^63 + 4",
    "sin(x)^70 + 2*sin(x)^2 + sin(x)",
    "3*cos(y)^66 - cos(y)^65 + 0.5*cos(y) + 2",
    "exp(-x)^72 + exp(-x)^3 + 1",
    "ln(x)^68 + 2*ln(x) + 1 + y",
    "x^64 + x^32 + x^16 + 1",
    "(x + y)^66 + 2*(x + y)^3 + 1",
    "atan(x*y)^67 + atan(x*y)^2 + atan(x*y)",
    "0 - x/y",
    "exp(-(x/y))",
    "x*y*x*y*x",
    "y - x + (y - x)*2",
];
