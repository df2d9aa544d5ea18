SPECIFICATION TSpec
CONSTANT Watch = {"reads", "store", "nonce", "root", "total", "proofs", "io"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
