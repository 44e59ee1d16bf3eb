#!/bin/bash
# setup.sh: builds everything the checks use
set -e
here=$(dirname "$0")
bash "$here/build.sh" plain vdriver vschema vcodec vcrash vgrib vcapi vview vtools chunked_data_view_bindings pyfdb_bindings
bash "$here/build.sh" san vdriver vcodec vview
