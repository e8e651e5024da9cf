pragma circom 2.0.0;
// Stand-in with the definitions of circomlib 2.0.5.
include "comparators.circom";
include "aliascheck.circom";
template Num2Bits(n) {
    signal input in;
    signal output out[n];
    var lc1 = 0;
    var e2 = 1;
    for (var i = 0; i < n; i++) {
        out[i] <-- (in >> i) & 1;
        out[i] * (out[i] - 1) === 0;
        lc1 += out[i] * e2;
        e2 = e2 + e2;
    }
    lc1 === in;
}
template Num2Bits_strict() {
    signal input in;
    signal output out[254];
    component aliasCheck = AliasCheck();
    component n2b = Num2Bits(254);
    in ==> n2b.in;
    for (var i = 0; i < 254; i++) {
        n2b.out[i] ==> out[i];
        n2b.out[i] ==> aliasCheck.in[i];
    }
}
template Bits2Num(n) {
    signal input in[n];
    signal output out;
    var lc1 = 0;
    var e2 = 1;
    for (var i = 0; i < n; i++) {
        lc1 += in[i] * e2;
        e2 = e2 + e2;
    }
    lc1 ==> out;
}
template Bits2Num_strict() {
    signal input in[254];
    signal output out;
    component aliasCheck = AliasCheck();
    component b2n = Bits2Num(254);
    for (var i = 0; i < 254; i++) {
        in[i] ==> b2n.in[i];
        in[i] ==> aliasCheck.in[i];
    }
    b2n.out ==> out;
}
template Num2BitsNeg(n) {
    signal input in;
    signal output out[n];
    var lc1 = 0;
    component isZero;
    isZero = IsZero();
    var neg = n == 0 ? 0 : 2 ** n - in;
    for (var i = 0; i < n; i++) {
        out[i] <-- (neg >> i) & 1;
        out[i] * (out[i] - 1) === 0;
        lc1 += out[i] * 2 ** i;
    }
    in ==> isZero.in;
    lc1 + isZero.out * 2 ** n === 2 ** n - in;
}
