#!/bin/bash
# every sim_X defined in the simulator replaces X in the code under test
grep -hoE '\bsim_[A-Za-z_0-9]+\(' "$@" | sed 's/($//' | sort -u | grep -v 'sim_ctx_switch' | sed -E 's/^sim_(.*)$/\1 sim_\1/'
