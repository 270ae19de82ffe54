// The new-data flag between the sampling context and the reader.
#include "containers.hh"
#include "util/filtered_interp_array.hh"
extern "C" float vft_ext_read(unsigned i);
struct Filter {
	float last;
	float add_val(float x) { return last = x; }
};
using A = FilteredInterpArray<3, Filter>;
extern "C" [[gnu::used]] const size_t vft_layout__h[2] = {offsetof(A, _new_data_ready), sizeof(A)};
extern "C" [[gnu::used]] void vft_mark__h(A &a) { a.mark_new_data_ready(); }
extern "C" [[gnu::used]] void vft_take__h(A &a) {
	a.add_new_readings([](unsigned i) { return vft_ext_read(i); });
}
