#!/bin/bash
# Builds everything the checks need, so that each check only rebuilds what depends on /repo.
exec bash "$(dirname "$0")/build.sh" tokio agnostic threads
