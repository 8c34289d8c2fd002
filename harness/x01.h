// X01: the instruction set of the generated programs, shared by the driver and the plugins
#pragma once
#include <cstdint>
#include <cstddef>
#define X01_REGS 3
#define X01_MASKS 2
#define X01_MEM 64
#define X01_OPS(X)                                                                                                   \
    X(Add) X(Sub) X(Mul) X(Div) X(AddA) X(SubA) X(MulA) X(Neg) X(AddS) X(SSub) X(MulS) X(Min) X(Max) X(Broadcast)    \
    X(SetLane) X(Zero) X(Iota) X(Cmp) X(MaskLogic) X(MaskSet) X(MaskReduce) X(Where) X(WhereAdd) X(WhereMul)         \
    X(WhereSub) X(Iif) X(SetZeroM) X(SetZeroInvM) X(Shifted) X(ShiftedIn) X(Rotated) X(Reversed) X(Sorted)           \
    X(InterleaveLow) X(InterleaveHigh) X(MinR) X(MaxR) X(Load) X(LoadA) X(Store) X(StoreM) X(Gather) X(GatherM)      \
    X(Scatter) X(ScatterM) X(Abs) X(Apply) X(ApplyM) X(Generate) X(LoadConvF) X(Cast) X(MaskCast)                    \
    X(And) X(Or) X(Xor) X(Not) X(Shl) X(Shr) X(ShlA) X(ShrA) X(Mod) X(PartialSum) X(Sum) X(Product) X(SumMasked)     \
    X(Sqrt) X(Floor) X(Ceil) X(Trunc) X(Round) X(Copysign) X(Isnan) X(Isinf) X(Isfinite) X(Isnegative)
enum X01OpCode {
#define X(n) Op##n,
    X01_OPS(X)
#undef X
    X01NumOps
};
struct X01Op {
    uint32_t op, type, d, a, b, c;
    uint64_t imm;
};
#ifndef X01_ENTRY
#define X01_ENTRY x01_run
#endif
