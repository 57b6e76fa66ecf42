"""property id -> module under sa/props deciding it"""
CHECKS = {
    'C01': 'p_names',
    'C02': 'p_calls',
    'C03': 'p_sqltext',
    'C04': 'p_sqltext',
    'C05': 'p_txn',
    'C06': 'p_txn',
    'C07': 'p_pool',
    'C08': 'p_wsgi',
    'C09': 'p_safe',
    'C10': 'p_close',
    'C11': 'p_locks',
    'C12': 'p_links',
    'C17': 'p_grammar',
    'C19': 'p_xmlout',
    'C22': 'p_locks',
    'C23': 'p_creds',
    'C16': 'p_parse',
    'C24': 'p_pipeline',
    'C25': 'p_package',
    'C26': 'p_package',
    'C28': 'p_lti',
    'C29': 'p_qtiop',
    'C13': 'p_odataexpr',
    'C32': 'p_http',
    'C31': 'p_options',
    'C33': 'p_sqlexpr',
    'C34': 'p_request',
}
