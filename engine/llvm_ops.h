// numbering of llvm::Instruction binary opcodes and icmp predicates (LLVM 18); checked at build time by ops_check.cpp
enum { IR_Add = 13, IR_FAdd, IR_Sub, IR_FSub, IR_Mul, IR_FMul, IR_UDiv, IR_SDiv, IR_FDiv, IR_URem, IR_SRem, IR_FRem, IR_Shl, IR_LShr, IR_AShr, IR_And, IR_Or, IR_Xor };
enum { P_EQ = 32, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
