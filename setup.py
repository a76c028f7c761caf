import check
print(check.gover())
