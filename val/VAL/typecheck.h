#ifndef VERIF_VAL_TYPECHECK_H_
#define VERIF_VAL_TYPECHECK_H_
#include "VAL/ptree.h"
namespace VAL {
class TypeChecker {
 public:
  explicit TypeChecker(analysis* a) : a_(a) {}
  bool typecheckDomain();
  bool typecheckProblem();

 private:
  analysis* a_;
};
}  // namespace VAL
#endif  // VERIF_VAL_TYPECHECK_H_
