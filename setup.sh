#!/bin/bash
# builds the analyser from the committed files, offline
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin evidence
cd wrcheck && go build -o ../bin/wrcheck . 
