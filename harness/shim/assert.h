#ifndef OPS_SHIM_ASSERT
#define OPS_SHIM_ASSERT
namespace ops {
struct ContractViolation {};
} // namespace ops
#endif
#undef assert
#define assert(c) ((c) ? (void)0 : throw ::ops::ContractViolation{})
