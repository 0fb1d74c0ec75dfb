#ifndef VERIF_VAL_FLEXLEXER_H_
#define VERIF_VAL_FLEXLEXER_H_
#include <iostream>
class yyFlexLexer {
 public:
  void switch_streams(std::istream* new_in, std::ostream* new_out) {
    in = new_in;
    out = new_out;
  }
  std::istream* in = nullptr;
  std::ostream* out = nullptr;
};
#endif  // VERIF_VAL_FLEXLEXER_H_
