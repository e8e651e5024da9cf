pragma circom 2.0.0;
template Xor3(n) {
    signal input a[n];
    signal input b[n];
    signal input c[n];
    signal output out[n];
    signal mid[n];
    for (var k = 0; k < n; k++) {
        mid[k] <== b[k] * c[k];
        out[k] <== a[k] * (1 - 2*b[k] - 2*c[k] + 4*mid[k]) + b[k] + c[k] - 2*mid[k];
    }
}
