#!/bin/bash
# one.sh ID: the check on the current tree
cd /verif; python3 check.py "$@" | cut -c1-600
