LEVEL = {'P%02d' % i: 'exploration' for i in range(1, 22)}
