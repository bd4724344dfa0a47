// nothing
