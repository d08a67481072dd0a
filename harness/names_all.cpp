// Instantiates the reserved names of a user-defined name type; never executed.
#include <TAT/TAT.hpp>
namespace TAT {
   template<>
   struct NameTraits<int> : NameTraitsBase<int> {};
   template<>
   inline const int InternalName<int>::Default_0 = -1;
   template<>
   inline const int InternalName<int>::Default_1 = -2;
   template<>
   inline const int InternalName<int>::Default_2 = -3;
} // namespace TAT
template<typename Name>
void harness_names(void (*use)(const Name&)) {
   using I = TAT::InternalName<Name>;
   use(I::Contract_0), use(I::Contract_1), use(I::Contract_2);
   use(I::SVD_U), use(I::SVD_V), use(I::QR_1), use(I::QR_2);
   use(I::Trace_1), use(I::Trace_2), use(I::Trace_3);
   use(I::No_Old_Name), use(I::No_New_Name), use(I::Exp_1), use(I::Exp_2);
}
template void harness_names<int>(void (*)(const int&));
template void harness_names<TAT::FastName>(void (*)(const TAT::FastName&));
template void harness_names<std::string>(void (*)(const std::string&));
