#!/bin/bash
# Builds the framework from the committed files, offline.
exec "$(dirname "$0")/build.sh" sp nosp bare rand
