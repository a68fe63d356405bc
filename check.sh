#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
[ -x "$here/bin/vsym" ] || bash "$here/setup.sh" || exit 3
exec "$here/bin/vsym" -property "$1" -tier "${2:-quick}" -verif "$here"
