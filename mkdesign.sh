#!/bin/bash
# DESIGN.md = head + properties + tail
cat design/head.md design/props.md design/tail.md > DESIGN.md
