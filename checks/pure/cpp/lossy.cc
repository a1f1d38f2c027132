// The C++ side of the formatter: the repository's own header, called the way generated code does.
#include "support/rs_std/lossy_formatter_for_bindings.h"

using lossy_formatter::LossyFormatter;
extern "C" {
size_t cxx_lf_bytes(LossyFormatter* f, const char* d, size_t n) { return f->write_bytes(d, n); }
bool cxx_lf_byte(LossyFormatter* f, uint8_t b) { return f->write_byte(b); }
size_t cxx_lf_fill(LossyFormatter* f, size_t n, uint8_t b) { return f->write_fill(n, b); }
bool cxx_lf_flush(LossyFormatter* f) { return f->flush(); }
}
