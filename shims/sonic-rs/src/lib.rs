pub fn stub(){}
