#include <memory>
#include <string>
#include "simstring.h"
// The real helpers, over the stand-in string.
#define std sim_std
#include "support/cc_std_impl/conversion_function_helpers.h"
#undef std
namespace h = crubit_cc_std_internal::conversion_function_helpers;
extern "C" {
size_t s_size(const void* s) { return h::StringGetSize(s); }
const char* s_data(const void* s) { return h::StringGetData(s); }
char* s_mut_data(void* s) { return h::StringGetMutData(s); }
void s_create_in_place(void* d, void* s) { h::StringCreateInPlace(d, s); }
void* s_create(const char* b, size_t n) { return h::StringCreateFromBuffer(b, n); }
void* s_move_owned(void* s) { return h::StringMoveOwnedPtr(s); }
void* s_copy_owned(void* s) { return h::StringCopyOwnedPtr(s); }
bool s_equal(const void* a, const void* b) { return h::StringEqual(a, b); }
void s_delete(void* s) { h::StringDelete(s); }
void s_default_in_place(void* d) { h::StringCreateDefaultInPlace(d); }
void s_buffer_in_place(void* d, const char* b, size_t n) { h::StringCreateFromBufferInPlace(d, b, n); }
void s_copy_in_place(void* d, const void* s) { h::StringCreateCopyInPlace(d, s); }
void s_destroy_in_place(void* s) { h::StringDestroyInPlace(s); }
}
