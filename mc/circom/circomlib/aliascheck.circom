pragma circom 2.0.0;
include "compconstant.circom";
template AliasCheck() {
    signal input in[254];
    component compConstant = CompConstant(-1);
    for (var i = 0; i < 254; i++) in[i] ==> compConstant.in[i];
    compConstant.out === 0;
}
