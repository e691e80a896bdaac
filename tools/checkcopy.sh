#!/bin/bash
# checkcopy.sh PROPERTY REPO : development helper, the quick check of PROPERTY against a copy of the repository
VERIF_REPO=$2 timeout 880 bash /verif/run.sh $1 quick
