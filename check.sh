#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
dir=$(cd "$(dirname "$0")" && pwd)
bash "$dir/build.sh" || exit 2
exec "$dir/bin/symgo" check -verif "$dir" -prop "$1" -tier "${2:-quick}"
