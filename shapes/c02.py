from messages import c02 as cases
