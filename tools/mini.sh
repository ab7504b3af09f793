#!/bin/bash
# mini.sh BUILD PLAN: minimise & show
S=$(ls -d /verif/build/$1-*/sim); $S min $2 /tmp/o/min.plan 40; cat /tmp/o/min.plan
