import cProfile,pstats,sys
sys.argv=['try1.py','evaluateBinaryExpression','cmp']
cProfile.run(open('try1.py').read(),'/tmp/prof')
pstats.Stats('/tmp/prof').sort_stats('cumtime').print_stats(35)
