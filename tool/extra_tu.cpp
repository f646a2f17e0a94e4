// Driver translation unit: makes clang instantiate the header-only parts of the
// module that no library source instantiates (they are only parsed, never run).
#include <gismo.h>
#include <gsKLShell/src/getMaterialMatrix.h>
#include <gsKLShell/src/gsThinShellAssemblerDWR.h>
#include <gsKLShell/src/gsThinShellDWRHelper.h>
#include <gsKLShell/src/gsFunctionSum.h>
namespace gismo {
template gsMaterialMatrixBase<real_t>::uPtr getMaterialMatrix<2,real_t>(const gsMultiPatch<real_t>&,const gsFunctionSet<real_t>&,const std::vector<gsFunctionSet<real_t>*>&,const gsFunctionSet<real_t>&,const gsOptionList&);
template gsMaterialMatrixBase<real_t>::uPtr getMaterialMatrix<3,real_t>(const gsMultiPatch<real_t>&,const gsFunctionSet<real_t>&,const std::vector<gsFunctionSet<real_t>*>&,const gsFunctionSet<real_t>&,const gsOptionList&);
template gsMaterialMatrixBase<real_t>::uPtr getMaterialMatrix<2,real_t>(const gsMultiPatch<real_t>&,const gsFunctionSet<real_t>&,const std::vector<gsFunctionSet<real_t>*>&,const gsOptionList&);
template gsMaterialMatrixBase<real_t>::uPtr getMaterialMatrix<3,real_t>(const gsMultiPatch<real_t>&,const gsFunctionSet<real_t>&,const std::vector<gsFunctionSet<real_t>*>&,const gsOptionList&);
typedef gsThinShellDWRHelper<real_t> kl_Helper;
template void kl_Helper::computeError(const gsMultiPatch<real_t>&,const gsMultiPatch<real_t>,const typename kl_Helper::bContainer&,const gsMatrix<real_t>&,bool,bool,std::string,unsigned,bool,bool);
template std::vector<real_t> kl_Helper::errors(bool) const;
template std::vector<real_t> kl_Helper::absErrors(bool) const;
template std::vector<real_t> kl_Helper::sqErrors(bool) const;
template class gsFunctionPieceSum<real_t>;
template class gsFunctionSum<real_t>;
template void kl_Helper::computeError(const gsMultiPatch<real_t>&,const gsMultiPatch<real_t>,bool);
template void kl_Helper::computeError(const gsMultiPatch<real_t>&,const gsMultiPatch<real_t>,bool,std::string,unsigned,bool,bool);
}
