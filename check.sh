#!/bin/bash
# check.sh <property>: decide one property on /repo's current tree.
cd "$(dirname "$0")"
. /opt/vp/env.sh
[ -x bin/gvc ] || bash setup.sh >&2 || exit 2
exec bin/gvc -verif "$PWD" -contracts "$PWD/contracts" check "$1"
