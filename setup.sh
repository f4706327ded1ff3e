#!/bin/bash
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" all
