// instantiates the repository's storage templates so that every member is extracted; adds no code of its own
#include "PsiData.hh"
template class Mat1<double>;
template class Mat2<double>;
template class Mat3<double>;
template class Mat1<UINT>;
template class Mat2<UINT>;
template class Mat3<UINT>;
template class Mat2<bool>;
