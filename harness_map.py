"""property -> harness modules"""
MODULES = {'C01': ['h_tlv'], 'C02': ['h_tlv'], 'C03': ['h_core'], 'C04': ['h_core'], 'C29': ['h_core'],
           'C05': ['h_packet'], 'C06': ['h_packet'], 'C07': ['h_packet'], 'C17': ['h_sign'],
           'C09': ['h_flic'], 'C11': ['h_flic'], 'C33': ['h_flic'], 'C08': ['h_eq'], 'C32': ['h_eq'], 'C34': ['h_eq'],
           'C12': ['h_crypto'], 'C13': ['h_crypto'], 'C14': ['h_crypto'], 'C15': ['h_crypto'],
           'C16': ['h_crypto'], 'C27': ['h_crypto'], **{'C%d' % i: ['h_tree'] for i in (18, 19, 20, 21, 22, 23, 24, 31)}, 'C10': ['h_hostile'], **{'C%d' % i: ['h_more'] for i in range(37, 41)},
           'C25': ['h_io'], 'C26': ['h_io'], 'C30': ['h_io'], 'C28': ['h_cli'], 'C35': ['h_cli'], 'C36': ['h_cli'], 'C41': ['h_diag'], 'C42': ['h_keys']}
