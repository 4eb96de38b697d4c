#!/bin/bash
# The feature sets of the library under which a property is checked; the first one drives.
# A set with a + before it is built, too, and serves as the peer the first one is compared with.
case "$1" in
  C07) echo "default alloc all" ;;
  C20) echo "alloc +default" ;;
  C21) echo "all +default" ;;
  *) echo "default" ;;
esac
