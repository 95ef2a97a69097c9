// streams, and the commands that use them
include stream.spec
include run.spec
