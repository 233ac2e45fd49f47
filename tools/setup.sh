#!/bin/sh
# builds the simulator and the library under it; every check repeats this when /repo changed
exec /verif/sim/build.sh
