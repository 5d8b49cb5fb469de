// build: VARIANT=plain EXTRAOBJ=$(O)/ref_isa.o
// C03: integer and bit-manipulation instructions.
#include "sweep.hpp"
using namespace isa;
int main(int argc, char** argv) {
	Check chk(argc, argv, "C03");
	chk.rule("every supported integer instruction x every immediate x every register-aliasing pattern x cross product of boundary operand values, executed by step, simulate and simulate_inaccurate and compared with the reference model");
	std::vector<const ref::Op*> ops; for (auto& n : supported()) { auto* op = ref::find_name(n); if (op && classify(op) == INTEGER) ops.push_back(op); }
	static Box* box = nullptr; static ref::State base = base_state();
	chk.section("sweep", [&](Ctx& c) {
		if (!box) box = new Box; auto* op = c.pick(ops, "instruction"); int part = c.choose(Sweep::PARTS, "part");
		c.at("%s part %d", op->name, part); c.crash_key(string(op->name) + ":crash");
		Sweep s(c, *box, op); s.part(part, base); c.state(vp::mix((u64)op->match, part));
		if (c.want_sample()) c.sample(fmt("%s part %d", op->name, part));
	}, { .split_depth = 2, .timeout_s = 600 });
	return chk.finish();
}
