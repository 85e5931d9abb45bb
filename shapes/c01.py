from messages import c01 as cases
