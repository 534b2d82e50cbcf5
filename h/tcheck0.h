#pragma once
// numbers in error messages: some text (trusted: the text of messages is not specified)
#ifdef ZV_SYMBOLIC
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::string ZC_to_string_m(unsigned long) { return std::string(1, (char)zv_havoc64()); }
extern "C" std::string ZC_to_string_i(int) { return std::string(1, (char)zv_havoc64()); }
#endif
