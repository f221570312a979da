#!/bin/bash
# builds the framework and fills the object cache from /repo's current tree
cd "$(dirname "$0")/.." && bash bin/build.sh
