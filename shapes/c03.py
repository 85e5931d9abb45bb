from messages import c03 as cases
