// Small helpers for the demonstrations: a machine with a piece of code, no files needed.
#pragma once
#include <libloong/machine.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <vector>
using namespace loongarch; typedef uint64_t u64; typedef int64_t i64;
constexpr uint32_t STOP = 0x00150000;
struct Guest {
	std::shared_ptr<MachineOptions> opt = std::make_shared<MachineOptions>(); Machine m; std::vector<uint32_t> code;
	Guest(std::vector<uint32_t> c, u64 size = 0x40000, u64 base = 0x1000, u64 data = 0x4000) : m(std::string_view{}, *opt), code(std::move(c)) {
		m.set_options(opt); m.memory.allocate_custom_arena(size, base, data); code.push_back(STOP); memcpy((void*)(m.memory.arena_ptr() + base), code.data(), code.size() * 4); m.cpu.init_execute_area(code.data(), base, code.size() * 4); m.cpu.registers().pc = base; }
	u64& r(int i) { return m.cpu.reg(i); }
	int run(u64 max = 1000000, u64 pc = 0x1000) { m.cpu.registers().pc = pc; try { return m.simulate(max, 0) ? 0 : -1; } catch (const MachineException& e) { return 100 + e.type(); } }
};
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); bad = 1; } } while (0)
