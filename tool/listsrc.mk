include $(MKREPO)/Makefile
.PHONY: print
print:
	@echo $(sort $(CPPS))
	@echo $(INCDIRS)
