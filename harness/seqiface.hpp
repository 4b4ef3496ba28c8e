// Case representation shared by the sequential harness and its generator.
#ifndef VERIF_SEQIFACE_HPP
#define VERIF_SEQIFACE_HPP
#include "common.hpp"
namespace vf {
enum OpCode {
    O_STORE, O_LOAD, O_XCHG, O_CAS_S1, O_CAS_S2, O_CAS_W1, O_CAS_W2, O_ASSIGN, O_CONV, O_WAITDIFF, O_WAITFOR, O_VALUE,
    O_FETCH_AND, O_FETCH_OR, O_FETCH_XOR, O_FETCH_COMPL, O_BIT_AND, O_BIT_OR, O_BIT_XOR, O_BIT_COMPL,
    O_OPQ_AND, O_OPQ_OR, O_OPQ_XOR, O_OPQ_COMPL, O_AND_TEST, O_OR_TEST, O_XOR_TEST, O_COMPL_TEST, O_BTS, O_BTR, O_BTC,
    O_OPR_AND, O_OPR_OR, O_OPR_XOR,
    O_FETCH_ADD, O_FETCH_SUB, O_FETCH_NEG, O_ADD, O_SUB, O_NEG, O_OPQ_ADD, O_OPQ_SUB, O_OPQ_NEG, O_ADD_TEST, O_SUB_TEST, O_NEG_TEST,
    O_PREINC, O_PREDEC, O_POSTINC, O_POSTDEC, O_OPR_ADD, O_OPR_SUB,
    O_TAS, O_CLEAR, O_TEST, O_COUNT
};
inline const char* const* op_names() {
    static const char* const n[] = {
    "store","load","exchange","cas_strong1","cas_strong2","cas_weak1","cas_weak2","assign","convert","wait_diff","wait_for_diff","value",
    "fetch_and","fetch_or","fetch_xor","fetch_complement","bitwise_and","bitwise_or","bitwise_xor","bitwise_complement",
    "opaque_and","opaque_or","opaque_xor","opaque_complement","and_and_test","or_and_test","xor_and_test","complement_and_test","bit_test_and_set","bit_test_and_reset","bit_test_and_complement",
    "operator&=","operator|=","operator^=",
    "fetch_add","fetch_sub","fetch_negate","add","sub","negate","opaque_add","opaque_sub","opaque_negate","add_and_test","sub_and_test","negate_and_test",
    "++x","--x","x++","x--","operator+=","operator-=","test_and_set","clear","test" };
    return n;
}

enum Sel { S_RAW, S_STATE, S_NEG, S_NOT, S_FLIP, S_COUNT };
inline const char* const* sel_names() { static const char* const n[] = { "raw", "state", "neg", "not", "flip" }; return n; }

struct Op {
    int code, ord, csel, asel, bsel, rt; u128 a, b; // rt: the run-time order, used when ord is 2 (concurrent harnesses)
    Op() : code(0), ord(0), csel(0), asel(0), bsel(0), rt(5), a(0), b(0) {}
};
struct Case {
    int runner; u128 init; unsigned place; std::vector<Op> ops;
    Case() : runner(0), init(0), place(0) {}
};

struct Runner {
    std::vector<int> ops; std::string type, kind; unsigned bits; bool is_ref;
    Runner() : bits(0), is_ref(false) {}
    virtual ~Runner() {}
    virtual bool run(const Case& c, std::string& why, Stats* st) = 0; // true = agrees with the model
};
inline std::vector<Runner*>& runners() { static std::vector<Runner*>* r = new std::vector<Runner*>; return *r; }

} // namespace vf
#endif
