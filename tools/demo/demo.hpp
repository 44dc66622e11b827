#pragma once
// Runs one deterministic scenario on the library; exit 0 if its assertions hold.
#include "flows.hpp"
using namespace sim;
static int runDemo(const std::function<void(Ctx &)> &f)
{
	mc::Shared *sh = (mc::Shared *)calloc(1, sizeof(mc::Shared));
	pthread_mutex_init(&sh->mu, nullptr);
	mc::Task t; Ctx ctx; ctx.m_sh = sh; ctx.m_task = &t; ctx.verbose = getenv("VERBOSE") != nullptr;
	try { f(ctx); ctx.bail(); }
	catch(const mc::Violation &v) { printf("BROKEN: %s\n", v.msg.c_str()); return 1; }
	catch(const std::exception &e) { printf("BROKEN: exception %s\n", e.what()); return 1; }
	printf("ok\n");
	return 0;
}
