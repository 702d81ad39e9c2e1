#!/bin/bash
# Prints the crate (directory under /verif) holding the monitors of a property.
case "$1" in
    K01|D01|G01|T01|S12) echo vhx ;;
    *) echo harness ;;
esac
