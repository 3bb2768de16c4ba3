#!/bin/bash
exec timeout 200 python3 "$(dirname "$0")/demo.py"
