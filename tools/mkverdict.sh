#!/bin/bash
# mkverdict.sh NAME: spec/Verdict<NAME>.tla judges histories with <NAME>Clauses
cd "$(dirname "$0")/../spec"
sed "s/Vocab/$1/g" VerdictVocab.tla > Verdict$1.tla; cp VerdictVocab.cfg Verdict$1.cfg
